"""The claimed properties: which check decides each, and how its runs are
made."""

REAL = [
    'ABXpy (task, distances, score, analyze, verify, h5tools, sampling, '
    'sideop, dbfun, database, misc), from the working tree of /repo',
    'the dtw extension, compiled from the working tree',
    'h5py, PyTables, pandas, h5features, numpy, the HDF5 library',
    'the kernel file system below the scratch directory, flock included',
    'one operating system process per simulated process',
]
STUB = [
    'process scheduling (one process runs at a time, the seed picks which)',
    'multiprocessing locks/queues/pools/processes and '
    'concurrent.futures.ProcessPoolExecutor (semantics of CPython 3.12)',
    'clock, sleep and entropy system calls, tempfile names, RNG state',
    'failures, short transfers and crashes of file system calls (LD_PRELOAD)',
]
ASSUMPTIONS = [
    'a crash kills processes: what the kernel was handed survives (ABXpy '
    'never calls fsync, power loss is out of scope)',
    'interleavings are explored at the granularity of file system, lock, '
    'task and queue operations',
]

PROPS = {}


def _p(id, rule, measure, *assumptions):
    PROPS[id] = {'check': id.lower(), 'level': 'exploration', 'rule': rule,
                 'measure': measure, 'assumptions': list(assumptions)}


BENIGN = ('with short and interrupted reads and writes, delays and clock jumps '
          'injected in about half of the runs')

_p('C01', 'Random tasks, features, distance functions, block sizes and '
   'n_cpu in 2..6 under seeded schedules (random, sticky, round robin, '
   'priority change, starvation), with file locks or without (NFS), and with '
   'short reads and writes; non-trivial: at least two processes were '
   'interleaved.',
   'distinct sequences of lock acquisitions and task hand-outs')
_p('C02', 'Random distance computations on 1 to 5 CPUs in which one thing goes '
   'wrong at a seeded place: an item makes the distance function raise, '
   'features are missing, a worker is killed, parent or worker meets an I/O '
   'error, the disk is full from some point on; non-trivial: the fault was '
   'met.',
   'distinct (kind of failure, outcome, state of the file left)',
   'a failing distance function raises; it does not call os._exit')
_p('C03', 'Random distance computations on 1 to 4 CPUs, each run to the end '
   'once to count its operations, then again with the whole process tree, the '
   'parent or a worker killed at five seeded points (torn writes included), '
   'then the scoring stage and a restart on what is left; non-trivial: the '
   'process was killed before its end.',
   'distinct (kind of crash, kind of call it hit, state of the file left)')
_p('C04', 'Random tasks (0 to 2 across, 0 to 2 by, filters and regressors of '
   'every kind) and a few large ones, buffer and chunk sizes down to one row, '
   + BENIGN + '.', 'distinct (buffer geometry, shape of the task)')
_p('C05', 'Random tasks and a few large ones, memory of the external sort '
   'from one chunk to 1/30th of the data, output buffers down to one row, '
   + BENIGN + '.', 'distinct (sort geometry, shape of the task)')
_p('C06', 'Batches of random pipelines (thresholded or not), executed in the '
   'simulator and again in a fresh interpreter with another seeded hash seed, '
   'random state, clock, temporary directory and order of execution.',
   'distinct shapes of tasks',
   'the fresh interpreter runs the same code outside the scheduler: nothing '
   'in it is concurrent')
_p('C07', 'Random tasks and thresholds under simulated random streams (the '
   'real generator, or one bent to low, high or repeated draws), random '
   'buffer geometry; every 25th run samples one cell under many streams and '
   'compares the frequencies with the uniform law at 6 sigma.',
   'distinct (stream, threshold, shape of the task)')
_p('C08', 'Random N, K and histories of chunk requests (empty, oversized, '
   'iterated) under simulated random streams; every 40th run repeats a '
   'history under 400 streams and compares the frequencies with the uniform '
   'law at 6 sigma.', 'distinct (stream, chunking, N, K) classes')
_p('C09', 'Random and a few large tasks with arbitrary distance values (ties, '
   'infinities, NaN, differences of one ulp), read buffers down to one row, '
   + BENIGN + '.', 'distinct (buffer geometry, kind of values, shape)')
_p('C10', 'Random, large and wide (up to 300^4 combinations) tasks with '
   'arbitrary scores, ' + BENIGN + '.', 'distinct shapes of tasks')
_p('C11', 'Each run executes one stage to the end to count its calls, then '
   'again with an error at six seeded calls (open, read, write, truncate, '
   'close, unlink, rename, mkdir; ENOSPC, EIO, EDQUOT, EMFILE, EACCES...; '
   'one-off or persistent); non-trivial: the error was delivered.',
   'distinct (stage, call, errno, file, outcome)',
   'a crash of the HDF5 library itself by a signal counts as a reported '
   'failure')
_p('C12', 'Each run executes one stage to the end to count its operations, '
   'then again stopped at five seeded operations (crash before, after or in '
   'the middle of a write, SIGINT, I/O error), runs the real following stages '
   'on what is left, and starts again; non-trivial: the stage was stopped.',
   'distinct (stage, kind of stop, call it hit, what was left)')
_p('C13', 'Up to 4 concurrent stages sharing their inputs under seeded '
   'schedules, with file locks or without, or one stage stopped or failing at '
   'seeded operations; the inputs are hashed before and after.',
   'distinct (stages, interleaving of file operations)')
_p('C14', 'Each run executes one stage or the sort with default and own '
   'temporary directory, five times: normally, with benign faults, unusable '
   'inputs, an I/O error at a seeded call, a full disk; the directory tree '
   'and the descriptor table are compared before and after.',
   'distinct (stage, what went wrong, outcome)',
   'descriptors are not compared after injected I/O errors (PyTables and '
   'h5py themselves keep handles then)')
_p('C15', 'Random keys, types, numbers of rows and other datasets, chunk and '
   'output buffers down to one row per chunk, ' + BENIGN + '.',
   'distinct (rows, chunking, key distribution) classes')
_p('C16', 'Random histories of writes and reads on interleaved datasets of '
   'random types, sizes, buffers and chunks, ' + BENIGN + '.',
   'distinct histories')
_p('C17', 'Random folders of npz files listed in a seeded order, batch sizes, '
   'split into one or two calls, with read errors and benign faults.',
   'distinct (order, batch, split, fault) combinations')
_p('C18', 'Random histories of up to 16 runs (function or command, either of '
   'two experiments), removals, I/O errors, interrupts and crashes in one '
   'directory, compared before and after each step.',
   'distinct (state of the outputs, step, outcome)')
_p('C19', 'The four commands on random data and options, with leftover '
   'outputs, 1 to 4 jobs under seeded schedules, random buffer geometry and '
   'benign faults.', 'distinct (options, shape of the task)')
