"""Python face of simos.so (see simos.c)."""
import ctypes
import errno
import os

OPS = ['open', 'close', 'read', 'write', 'trunc', 'flock', 'fsync', 'unlink',
       'rename', 'mkdir', 'rmdir']
OPBIT = {n: 1 << i for i, n in enumerate(OPS)}
KINDS = {'err': 1, 'short': 2, 'crash': 3, 'torn': 4, 'sigint': 5, 'clock': 6,
         'crash_after': 7, 'lie': 8}

_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(os.environ['ABXSIM_SO'])
        L.sim_start.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_uint64]
        L.sim_rule.argtypes = [ctypes.c_int, ctypes.c_uint, ctypes.c_int,
                               ctypes.c_long, ctypes.c_long, ctypes.c_double,
                               ctypes.c_long, ctypes.c_char_p]
        for f in ('sim_rule_hits', 'sim_rule_seen', 'sim_events', 'sim_count'):
            getattr(L, f).restype = ctypes.c_long
        L.sim_hash.restype = ctypes.c_uint64
        L.sim_clock_ns.restype = ctypes.c_int64
        L.sim_gate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint]
        L.sim_fd_path.restype = ctypes.c_char_p
        L.sim_reseed.argtypes = [ctypes.c_uint64]
        _lib = L
    return _lib


def mask(ops):
    if ops == 'all':
        return (1 << len(OPS)) - 1
    if isinstance(ops, str):
        ops = ops.split('|')
    m = 0
    for o in ops:
        m |= OPBIT[o]
    return m


def add_rules(faults):
    """faults: list of dicts kind, ops, nth|p, count, arg, path, w"""
    L = lib()
    for f in faults:
        arg = f.get('arg', 0)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        r = L.sim_rule(KINDS[f['kind']], mask(f.get('ops', 'all')),
                       int(f.get('w', 0)), f.get('nth', -1),
                       f.get('count', 1 if 'nth' in f else -1),
                       float(f.get('p', 0.0)), int(arg),
                       f.get('path', '').encode())
        assert r >= 0


def fault_name(f):
    k = f['kind']
    if k == 'err':
        ops = f.get('ops', 'all')
        if not isinstance(ops, str):
            ops = '|'.join(ops)
        return '%s:%s%s' % (f['arg'], ops, '' if f.get('count', 1) == 1 or
                            'nth' not in f else ':persistent')
    return k


def stats(faults):
    L = lib()
    return {
        'events': L.sim_events(),
        'counts': {n: L.sim_count(i) for i, n in enumerate(OPS)},
        'hash': '%016x' % L.sim_hash(),
        'clock_ns': L.sim_clock_ns(),
        'hits': [L.sim_rule_hits(i) for i in range(len(faults))],
        'seen': [L.sim_rule_seen(i) for i in range(len(faults))],
    }
