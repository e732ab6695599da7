"""Actors: the simulated processes.

The director of a run (one per seed, forked from a zygote that has already
imported the code under test) forks one actor per simulated process.  An actor
lives in the run's scratch root, under simos: its file system calls, clock,
entropy, temporary names and numpy random state are all functions of the run's
specification.
"""
import gc
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import osim

CPU_LIMIT = 40          # seconds of CPU: far beyond any legitimate stage
WALL_LIMIT = 300        # a wall-clock limit is a harness error, never a verdict


class HarnessError(Exception):
    pass


class Outcome(object):
    """What an actor did: ok | raise | signal | exit | hang"""

    def __init__(self, **kw):
        self.status = None
        self.value = None
        self.exc = None
        self.exc_type = None
        self.sim = None
        self.sig = None
        self.code = None
        self.__dict__.update(kw)

    @property
    def loud(self):
        return self.status != 'ok'

    def brief(self):
        if self.status == 'ok':
            return 'returned'
        if self.status == 'raise':
            return 'raised %s: %s' % (self.exc_type, (self.exc or '')[:160])
        if self.status == 'signal':
            return 'died with signal %s' % self.sig
        if self.status == 'exit':
            return 'exited with code %s' % self.code
        return self.status


class NameSeq(object):
    """Deterministic replacement of tempfile's random names."""

    def __init__(self, tag):
        self.tag, self.n = tag, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 't%s%06d' % (self.tag, self.n)


def settle(root, seed, faults, tag='', np_seed=None, log=None):
    """Enter the simulated world; called in the actor process."""
    import numpy as np
    import tempfile
    L = osim.lib()
    os.chdir(root)
    L.sim_start(root.encode(), 1, seed & (2 ** 64 - 1))
    L.sim_flags(1, 1)
    if log:
        L.sim_log(os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644))
    else:
        L.sim_log(-1)
    tempfile.tempdir = os.path.join(root, 'tmp')
    tempfile._name_sequence = NameSeq(tag)
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    random.seed(seed)
    np.random.seed((seed if np_seed is None else np_seed) % (2 ** 32))
    L.sim_clear_rules()
    osim.add_rules(faults)


def list_fds():
    L = osim.lib()
    return sorted(
        L.sim_fd_path(i).decode() for i in range(4096) if L.sim_fd_path(i))


def _child(wfd, root, fn, args, kw, o):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CPU,
                           (o['cpu'], o['cpu'] + 5))
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if o.get('fds'):
            resource.setrlimit(resource.RLIMIT_NOFILE, (o['fds'], o['fds']))
        settle(root, o['seed'], o['faults'], tag=o['tag'],
               np_seed=o['np_seed'], log=o['log'])
        if o['gate']:
            o['gate'].enter_main()
        if o['prepare']:
            o['prepare']()
        res = {'status': 'ok'}
        try:
            res['value'] = fn(*args, **kw)
            # an interrupt raised by the very last call is delivered here
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        except BaseException as e:  # the verdict belongs to the director
            res = {'status': 'raise', 'exc_type': type(e).__name__,
                   'exc': str(e)[:2000],
                   'tb': traceback.format_exc()[-3000:]}
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        osim.lib().sim_stop()
        res['sim'] = osim.stats(o['faults'])
        if o['gate']:
            o['gate'].leave_main()
        if o['want_fds']:
            gc.collect()
            res['fds'] = list_fds()
        try:
            blob = pickle.dumps(res)
        except Exception as e:
            blob = pickle.dumps({'status': 'harness', 'exc': repr(e)})
    except BaseException:
        blob = pickle.dumps({'status': 'harness',
                             'exc': traceback.format_exc()})
        code = 98
    try:
        view = memoryview(blob)
        while view:
            n = os.write(wfd, view)
            view = view[n:]
    finally:
        os._exit(code)


def spawn(root, fn, args=(), kw=None, faults=(), seed=1, tag='', np_seed=None,
          cpu=CPU_LIMIT, gate=None, prepare=None, log=None, want_fds=False,
          fds=None):
    """Run fn in an actor and return its Outcome."""
    faults = list(faults)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(wfd, root, fn, args, kw or {},
               dict(cpu=cpu, seed=seed, faults=faults, tag=tag, gate=gate,
                    np_seed=np_seed, prepare=prepare, log=log,
                    want_fds=want_fds, fds=fds))
    os.close(wfd)
    verdict = None
    if gate:
        verdict = gate.direct(pid)
    buf = []
    end = time.monotonic() + WALL_LIMIT
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise HarnessError('actor exceeded the wall clock limit')
            r, _, _ = select.select([rfd], [], [], left)
            if r:
                b = os.read(rfd, 1 << 20)
                if not b:
                    break
                buf.append(b)
    except HarnessError:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if verdict == 'hang':
        return Outcome(status='hang', gate=gate)
    blob = b''.join(buf)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGXCPU:
            return Outcome(status='hang', sig=s)
        return Outcome(status='signal', sig=s)
    code = os.WEXITSTATUS(st)
    if code == 137 and not blob:
        return Outcome(status='exit', code=137)
    if not blob:
        raise HarnessError('actor vanished (exit code %s)' % code)
    res = pickle.loads(blob)
    if res['status'] == 'harness':
        raise HarnessError(res['exc'])
    return Outcome(**res)


def fresh_root(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'tmp'))
    return root


def snapshot(root, skip=()):
    """{relative path: content} of every regular file below root."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if r in skip:
                continue
            with open(p, 'rb') as fh:
                out[r] = fh.read()
    return out


def restore(root, snap):
    fresh_root(root)
    for r, b in snap.items():
        p = os.path.join(root, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(b)


def become_subreaper():
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def reap_orphans():
    while True:
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if pid == 0:
            time.sleep(0.001)
