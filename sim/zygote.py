"""Zygote: imports the code under test once, then forks one director per run.

Protocol on (rfd, wfd): length-prefixed pickles.  Request: (id, check, spec,
options); answer: (id, result).
"""
import importlib
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

RUN_WALL = 400


def load_extension(path, name):
    import importlib.machinery
    import importlib.util
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    return mod


def readn(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def recv(fd):
    h = readn(fd, 4)
    if h is None:
        return None
    return pickle.loads(readn(fd, struct.unpack('<I', h)[0]))


def send(fd, obj):
    b = pickle.dumps(obj)
    v = memoryview(struct.pack('<I', len(b)) + b)
    while v:
        v = v[os.write(fd, v):]


def main():
    rfd, wfd, repo, dtw, scratch = (
        int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4],
        sys.argv[5])
    sys.path.insert(0, repo)
    from sim import actor, osim, simmp
    simmp.install()
    import warnings
    warnings.simplefilter('ignore')
    import ABXpy
    import ABXpy.distances
    if dtw != '-':
        import ABXpy.distances.metrics
        m = load_extension(dtw, 'ABXpy.distances.metrics.dtw')
        ABXpy.distances.metrics.dtw = m
    import ABXpy.task
    import ABXpy.score
    import ABXpy.analyze
    import ABXpy.distance
    import ABXpy.distances.distances
    import ABXpy.verify
    import ABXpy.misc.any2h5features
    import ABXpy.h5tools.h5io
    assert os.path.realpath(ABXpy.__file__).startswith(
        os.path.realpath(repo) + os.sep), ABXpy.__file__
    from sim import world
    assert osim.lib().sim_present() == 1
    checks = {}
    devnull = os.open('/dev/null', os.O_RDWR)
    if not os.environ.get('ABXSIM_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    # warm up everything the stages import lazily, so that no actor depends
    # on being the first
    import atexit
    atexit.register(lambda: None)
    warm = os.path.join(scratch, 'warm')
    actor.fresh_root(warm)
    world.warm_up(warm)
    send(wfd, 'ready')
    while True:
        req = recv(rfd)
        if req is None:
            return
        rid, cname, spec, opts = req
        if cname not in checks:
            checks[cname] = importlib.import_module('sim.checks.' + cname)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                actor.become_subreaper()
                t0 = time.monotonic()
                root = os.path.join(scratch, 'run')
                actor.fresh_root(root)
                run = world.Run(root, spec, opts)
                try:
                    try:
                        checks[cname].run(spec, run)
                    except world.Stop:
                        pass
                    except (LookupError, ValueError, TypeError,
                            ArithmeticError, AttributeError):
                        # what the code wrote makes no sense to the oracle
                        run.violate('senseless', 'the outputs cannot be '
                                    'interpreted: ' +
                                    traceback.format_exc()[-700:])
                    res = run.result()
                except actor.HarnessError as e:
                    res = {'harness': str(e) + '\n' + traceback.format_exc()}
                except BaseException:
                    res = {'harness': traceback.format_exc()}
                res['wall'] = time.monotonic() - t0
                send(w, res)
            finally:
                os._exit(0)
        os.close(w)
        ready, _, _ = select.select([r], [], [], RUN_WALL)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            res = {'harness': 'director exceeded the wall clock limit'}
        else:
            try:
                res = recv(r)
                if res is None:
                    res = {'harness': 'director died'}
            except Exception as e:
                res = {'harness': 'director died: %r' % e}
        os.close(r)
        os.waitpid(pid, 0)
        send(wfd, (rid, res))


if __name__ == '__main__':
    main()
