"""Builds the simulator and the code under test, keeps a pool of zygotes and
feeds them runs."""
import collections
import ctypes
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time

from . import zygote as zy

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('ABXSIM_REPO', '/repo')
PY = '/opt/venv/bin/python'


def no_aslr():
    """Addresses are a source of nondeterminism too (id() based orders)."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class BuildError(Exception):
    pass


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **k)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd),
                                     p.stdout.decode('utf8', 'replace')))
    return p.stdout.decode('utf8', 'replace')


def base_dir():
    for d in ('/dev/shm', None):
        try:
            if d is None:
                return tempfile.mkdtemp(prefix='abxsim.')
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (1 << 30) and os.access(d, os.W_OK):
                return tempfile.mkdtemp(prefix='abxsim.', dir=d)
        except OSError:
            pass


class Engine(object):
    def __init__(self, workers=None, hashseeds=(0,), need_dtw=True):
        self.n = workers or min(8, os.cpu_count() or 1)
        self.base = base_dir()
        self.z = []
        self.hashseeds = list(hashseeds)
        self.need_dtw = need_dtw

    def build(self):
        so = os.path.join(self.base, 'simos.so')
        sh(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0',
            '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'simos.c'),
            '-ldl'])
        self.so = so
        # the distance extension, from the working tree's own source
        self.dtw = '-'
        src = os.path.join(REPO, 'ABXpy/distances/metrics/dtw/dtw.pyx')
        if os.path.exists(src):
            d = os.path.join(self.base, 'dtw')
            os.makedirs(d)
            shutil.copy(src, os.path.join(d, 'dtw.pyx'))
            sh([PY, '-c', 'import sys; from Cython.Compiler.Main import main;'
                'sys.argv=["cython","dtw.pyx"]; main(command_line=1)'], cwd=d)
            inc = sh([PY, '-c', 'import numpy,sysconfig;print(numpy.get_includ'
                      'e());print(sysconfig.get_paths()["include"])']).split()
            out = os.path.join(d, 'dtw.so')
            sh(['gcc', '-O1', '-w', '-fwrapv', '-fno-strict-aliasing',
                '-shared', '-fPIC', '-o', out, 'dtw.c'] +
               ['-I' + i for i in inc], cwd=d)
            self.dtw = out

    def start(self):
        self.build()
        for k in range(self.n):
            self.z.append(self._spawn(k, self.hashseeds[
                k % len(self.hashseeds)]))
        for z in self.z:
            self._expect_ready(z)

    def _spawn(self, k, hashseed):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
               'HOME': self.base, 'LC_ALL': 'C.UTF-8',
               'LD_PRELOAD': self.so, 'ABXSIM_SO': self.so,
               'PYTHONHASHSEED': str(hashseed), 'PYTHONUTF8': '1',
               'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': VERIF,
               'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
               'NUMEXPR_NUM_THREADS': '1', 'BLOSC_NTHREADS': '1',
               'MKL_NUM_THREADS': '1'}
        if os.environ.get('ABXSIM_DEBUG'):
            env['ABXSIM_DEBUG'] = '1'
        scratch = os.path.join(self.base, 'z%d' % k)
        os.makedirs(scratch, exist_ok=True)
        p = subprocess.Popen(
            [PY, '-m', 'sim.zygote', str(r1), str(w2), REPO, self.dtw,
             scratch],
            env=env, cwd=self.base, pass_fds=(r1, w2),
            stdin=subprocess.DEVNULL,
            stderr=open(os.path.join(scratch, 'err'), 'wb')
            if not os.environ.get('ABXSIM_DEBUG') else None,
            start_new_session=True, preexec_fn=no_aslr)
        os.close(r1)
        os.close(w2)
        return {'k': k, 'p': p, 'w': w1, 'r': r2, 'hs': hashseed,
                'busy': None, 'scratch': scratch}

    def _expect_ready(self, z):
        m = zy.recv(z['r'])
        if m != 'ready':
            err = ''
            try:
                err = open(os.path.join(z['scratch'], 'err')).read()[-3000:]
            except OSError:
                pass
            raise BuildError('the code under test could not be imported:\n' +
                             err)

    def map(self, jobs, stop=None, wall=None):
        """jobs: iterable of (id, check, spec, opts[, hashseed]).  Yields
        (job, result) in completion order.  stop() ends the dispatch."""
        it = iter(jobs)
        pending = collections.defaultdict(collections.deque)
        exhausted = False
        t0 = time.monotonic()
        inflight = 0
        while True:
            halted = (stop and stop()) or (
                wall and time.monotonic() - t0 > wall)
            for z in self.z:
                if z['busy'] is not None or halted:
                    continue
                job = None
                if pending[z['hs']]:
                    job = pending[z['hs']].popleft()
                elif pending[None]:
                    job = pending[None].popleft()
                while job is None and not exhausted:
                    try:
                        j = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    hs = j[4] if len(j) > 4 else None
                    if hs is None or hs == z['hs']:
                        job = j
                    else:
                        pending[hs].append(j)
                        if sum(map(len, pending.values())) > 64:
                            break
                if job is not None:
                    zy.send(z['w'], job[:4])
                    z['busy'] = job
                    inflight += 1
            if inflight == 0:
                if halted or (exhausted and not any(pending.values())):
                    return
            fds = {z['r']: z for z in self.z if z['busy'] is not None}
            r, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in r:
                z = fds[fd]
                m = zy.recv(fd)
                job = z['busy']
                z['busy'] = None
                inflight -= 1
                if m is None:
                    raise BuildError('a zygote died')
                yield job, m[1]

    def one(self, check, spec, opts=None, hashseed=None):
        for job, res in self.map([(0, check, spec, opts or {}, hashseed)]):
            return res

    def close(self):
        for z in self.z:
            try:
                os.killpg(z['p'].pid, signal.SIGKILL)
            except OSError:
                pass
            z['p'].wait()
            os.close(z['r'])
            os.close(z['w'])
        self.z = []
        shutil.rmtree(self.base, ignore_errors=True)
