"""Writes properties.jsonl and MANIFEST.json (one description for both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import props  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, note, **anchors):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            {'name': n, 'where': w} for n, w in mech], **anchors)), note))


prop('C01', 'Parallel distance computation equals the sequential definition',
     'For every task, features, distance function, block size, number of '
     'worker processes and interleaving of the workers, compute_distances '
     'ends and gives each pair of the task file exactly the distance its '
     'function returns on the frames of the two items (onset <= time <= '
     'offset), in the order of the pairs, with `done` set. The result does '
     'not depend on which worker computed the pair, when, on what it computed '
     'before, nor on how the pairs were split.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of the parent, the lock server and up to 6 workers '
     'at lock, file and task operations, with and without file system locks, '
     'every split into jobs and blocks',
     'A test runs one schedule, almost always the same, with one CPU; races '
     'on the shared distance file, wrong block offsets and state shared '
     'between distance calls show only under particular splits and '
     'interleavings.',
     ['ABXpy/distances/distances.py', 'ABXpy/distance.py',
      'ABXpy/distances/metrics/kullback_leibler.py'],
     [('job splitting', 'create_distance_jobs'),
      ('worker', 'run_distance_job'),
      ('pool and lock', 'compute_distances'),
      ('frames of an item', 'Features_Accessor.get_features_from_raw')],
     'the real parent and worker code, one process per worker, every lock, '
     'queue and file operation a scheduling point; file content compared '
     'with the reference distances')

prop('C02', 'Distance failures are reported and never hang or look complete',
     'Whenever the distance function raises, features are missing, a worker '
     'process is killed, or the parent or a worker meets an I/O error, '
     'compute_distances either raises or still produces every distance; it '
     'never waits forever, and never returns with wrong or missing '
     'distances. The file it leaves when it raises is not marked as done, '
     'and scoring that file fails unless every distance is there.',
     ['fault_sequences', 'schedules', 'inputs'],
     'every failing pair, every I/O error at every operation of every '
     'process, every worker death at every scheduling point',
     'Tests never kill a worker between acquiring a lock and writing its '
     'block, nor fill the disk at the 37th write.',
     ['ABXpy/distances/distances.py', 'ABXpy/score.py'],
     [('lock release on failure', 'run_distance_job'),
      ('failure propagation', 'compute_distances'),
      ('refusal of incomplete files', 'score.score')],
     'poisoned items, missing features, errors and kills injected into '
     'parent and workers at seeded points; hang detection is exact (no '
     'process can run)')

prop('C03', 'Distances marked done are complete, at every crash point',
     'If the computation of the distances is killed at any instant (all '
     'processes, the parent or a worker), the distance file is marked as '
     'done only if it holds the right distance of every pair. A file not '
     'marked as done is refused by the scoring stage; a complete one is '
     'accepted; starting again never makes an incomplete file pass for a '
     'complete one.',
     ['crash_points', 'schedules', 'histories'],
     'every crash point (before, after or in the middle of any file '
     'operation), for 1 to 4 CPUs, then a restart',
     'A crash between the last block and the flag, or between the flag and '
     'the data, takes an exact instant no test controls.',
     ['ABXpy/distances/distances.py', 'ABXpy/score.py'],
     [('done flag', 'compute_distances / create_distance_jobs'),
      ('check of the flag', 'score.score')],
     'the golden run is replayed and killed at seeded fractions of its '
     'operations, torn writes included; the survivors are judged by content '
     'and by the real scoring stage')

prop('C04', 'The task file holds exactly the ABX triplets of the task',
     'For every item file, on/across/by, filters and regressors, the task '
     'file lists every triplet (A and X same on, B another; A and B same '
     'across, X another; same by) that passes the filters once and no other, '
     'with its regressor values, item locations and by index. This holds '
     'whatever the sizes of the write buffers, the number of blocks and '
     'flushes, and however the disk splits transfers.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every task in the documented language, every buffer geometry, every '
     'pattern of short or interrupted transfers and clock jumps',
     'The tests compare a handful of small tasks that fit in one buffer '
     'flush; index arithmetic across blocks, integer width and row alignment '
     'fail on shapes they do not have.',
     ['ABXpy/task.py', 'ABXpy/sideop', 'ABXpy/dbfun', 'ABXpy/database',
      'ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h5io.py'],
     [('triplets of a block', 'Task.on_across_triplets'),
      ('streaming', 'Task._compute_triplets, np2h5.NP2H5.write'),
      ('regressors', 'sideop.regressor_manager, h5io.H5IO.write')],
     'streaming writers run under random buffer sizes and short, interrupted '
     'transfers; the file read back is compared with a reference model')

prop('C05', 'The task file lists exactly the pairs its triplets need',
     'For every task, the unique pairs of each by block are exactly the (A,X) '
     'and (B,X) pairs of its triplets, sorted, each once, with the base and '
     'row range that decode them. This holds whatever the memory the '
     'external sort gets, the number of its chunks, the buffer sizes and the '
     'way the disk splits transfers.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every task, every memory limit of the sort down to 1/30th of the data, '
     'every buffer geometry',
     'The pairs of a test task fit in one chunk: merging and de-duplication '
     'across buffers never run.',
     ['ABXpy/task.py', 'ABXpy/h5tools/h5_handler.py',
      'ABXpy/h5tools/h52np.py'],
     [('pairs', 'Task._generate_pairs'), ('sort', 'task.sort_pairs, '
                                          'H5Handler.sort'),
      ('de-duplication', 'Task._generate_pairs')],
     'the external sort and the streaming de-duplication run with forced '
     'tiny chunks and buffers under benign disk faults')

prop('C06', 'Results are reproducible in any process and environment',
     'The same inputs, options and seed give the same triplets, pairs, '
     'distances, scores and results file, in any interpreter process: '
     'whatever its hash seed, the state of the global random generator, the '
     'clock, the names of temporary files, the temporary directory used and '
     'what the process did before.',
     ['configurations', 'histories', 'inputs'],
     'every hash seed, random state, clock, temporary directory and earlier '
     'use of the process',
     'A test suite runs in one process with one hash seed; iteration over '
     'sets and leftover state differ only in another.',
     ['ABXpy/task.py', 'ABXpy/analyze.py', 'ABXpy/sideop'],
     [('seeding', 'Task.generate_triplets'),
      ('default regressors', 'sideop.regressor_manager'),
      ('collapse', 'analyze.collapse')],
     'each pipeline runs twice: in the simulator, and in a fresh interpreter '
     'with another hash seed, random state, clock and temporary directory')

prop('C07', 'Thresholding keeps exactly the allotted triplets, fairly',
     'With a threshold, for any random stream, every combination of '
     'regressors of an on/across/by cell keeps min(count, threshold) of its '
     'triplets, each a triplet of the task, none twice, with their own '
     'regressors. No triplet is favoured or impossible.',
     ['inputs', 'configurations', 'histories'],
     'every task, threshold and random stream, adversarial ones included '
     '(all draws low, high or duplicated)',
     'One seed gives one sample; a sampler that never picks the last '
     'triplet, or picks one twice on an unlucky draw, passes.',
     ['ABXpy/task.py', 'ABXpy/sampling/sampler.py'],
     [('thresholding', 'Task.on_across_triplets'),
      ('sampling', 'sampling.sampler.sample_without_replacement')],
     'the random generator is a simulated source, bent to unlucky streams; '
     'the sample is compared with the reference, and its frequencies over '
     'many streams with the uniform law')

prop('C08', 'The incremental sampler draws exactly K of N, uniformly',
     'Over any history of chunk requests covering [0, N) and any random '
     'stream, an IncrementalSampler(N, K) returns exactly K distinct indices '
     'in all, each in the chunk it was asked for (relative to it when asked '
     'so), in increasing order. Every index is equally likely.',
     ['histories', 'configurations'],
     'every N up to 10^12, K up to N, sequence of chunk sizes (empty and '
     'oversized ones included), step, and random stream',
     'The tests sample a few N, K with one chunking; totals go wrong only '
     'for particular histories and draws.',
     ['ABXpy/sampling/sampler.py'],
     [('chunk sizes', 'IncrementalSampler.sample'),
      ('draws', 'hypergeometric_sample, sample_without_replacement')],
     'seeded request histories under bent random streams; exactness of every '
     'history, frequencies over many streams')

prop('C09', 'Every triplet gets the score its two distances imply',
     'For every task file and complete distance file, triplet number i of '
     'the task gets score 1 if d(A,X) < d(B,X), -1 if greater and 0 if '
     'equal, at row i of the score file, for any distance values and order '
     'of blocks. This holds whatever the sizes of the read buffers and the '
     'way the disk splits transfers.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every task, distance values (ties, infinities, NaN, tiny differences), '
     'buffer geometry, short and interrupted transfers',
     'Test tasks are read in one buffer; misaligned rows need several '
     'buffers and by blocks.',
     ['ABXpy/score.py', 'ABXpy/h5tools/h52np.py'],
     [('scores', 'score.score'), ('streaming', 'H52NP subdatasets')],
     'the scoring loop runs with forced read buffers under benign disk '
     'faults; compared row by row with the reference')

prop('C10', 'The analysis averages every triplet once, in its own row',
     'For every task and score file, the results file has one row per '
     'combination of regressors and by level, whose n is the number of its '
     'triplets and whose score is the mean of their (score+1)/2; no row is '
     'missing, extra or duplicated, and the counts add up to the number of '
     'triplets. This holds for any number of combinations and behaviour of '
     'the disk.',
     ['inputs', 'fault_sequences'],
     'every task (thresholded or not), score vector, number of combinations '
     'up to 300^4, short and interrupted transfers',
     'The tests have few combinations, so mixed keys never collide or '
     'overflow.',
     ['ABXpy/analyze.py'],
     [('collapse', 'analyze.collapse'), ('output', 'analyze.analyze')],
     'the real analysis on arbitrary scores under benign disk faults; every '
     'row compared with the reference; conservation of the counts')

prop('C11', 'A stage that meets an I/O error fails or is still right',
     'Whatever file system call fails during the task, distance, scoring or '
     'analysis stage (no space, quota, I/O error, too many files), once or '
     'from then on, the stage either raises or leaves exactly the output it '
     'would have left without the error. It never returns normally with a '
     'wrong, truncated or missing output, and never loops forever.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every call (open, read, write, truncate, close, unlink, rename, mkdir) '
     'of every stage, every errno, one-off and persistent',
     'Tests never see a failing disk; h5py and PyTables silently drop some '
     'errors, so only an injected error reveals an unchecked flush.',
     ['ABXpy/task.py', 'ABXpy/score.py', 'ABXpy/analyze.py',
      'ABXpy/distances/distances.py', 'ABXpy/h5tools/np2h5.py'],
     [('flush on exit', 'NP2H5.__exit__'), ('scores', 'score.score'),
      ('distances', 'run_distance_job'), ('read back', '_generate_pairs')],
     'the golden run is repeated with an error at a seeded call; output '
     'compared with the golden output')

prop('C12', 'Interrupted stages leave nothing taken for a result',
     'If the task, scoring or analysis stage is killed or interrupted at any '
     'instant, or fails, what it leaves under the name of its output is '
     'absent, complete, or refused by the following stages: the pipeline run '
     'on it never produces a different results file. Removing the output and '
     'starting again gives the right result, whatever else was left.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every crash, interrupt (SIGINT), torn write or I/O error at every file '
     'operation of the stage, followed by the next stages or a restart',
     'Tests never stop a stage half way.',
     ['ABXpy/task.py', 'ABXpy/score.py', 'ABXpy/analyze.py',
      'ABXpy/misc/output_file.py'],
     [('order of the writes of a task file', 'Task.generate_triplets'),
      ('complete or absent outputs', 'complete_file')],
     'crash at a seeded operation, then the real following stages judge what '
     'was left; restart compared with the golden output')

prop('C13', 'No stage modifies its inputs; stages can share them',
     'Whatever happens to it (success, failure, I/O error, crash), a stage '
     'never changes, removes or creates anything but its own output: item, '
     'features, task, distance and score files it reads stay identical byte '
     'for byte. Stages reading the same files at the same time neither fail '
     'nor disturb each other, with or without file locks.',
     ['schedules', 'fault_sequences', 'crash_points'],
     'every interleaving of up to 4 concurrent stages sharing inputs; every '
     'error or crash of a single stage',
     'Tests run stages one at a time and never hash their inputs.',
     ['ABXpy/task.py', 'ABXpy/distances/distances.py', 'ABXpy/score.py',
      'ABXpy/analyze.py', 'ABXpy/verify.py'],
     [('read-only opens', 'h5py.File(..., "r") of each stage')],
     'several stages as concurrent simulated processes; inputs hashed before '
     'and after; outputs compared with those of stages run alone')

prop('C14', 'No temporary file or open file outlives a stage',
     'When the task, sort, distance, scoring or analysis stage returns or '
     'raises (bad inputs, full disk, I/O error), no temporary file or '
     'directory is left, neither in the default temporary directory nor in '
     'the one given by the user nor next to the output. When it ended '
     'without an I/O error, no file is left open either.',
     ['fault_sequences', 'inputs', 'histories'],
     'every failing read, write or truncate, one-off or persistent, every '
     'kind of unusable input, default or own temporary directory',
     'Leaks are invisible to tests that only look at outputs, and the error '
     'paths never run in them.',
     ['ABXpy/task.py', 'ABXpy/h5tools/h5_handler.py',
      'ABXpy/misc/output_file.py'],
     [('temporary pairs file', 'Task._generate_pairs'),
      ('temporary file of the sort', 'H5TMP'),
      ('partial outputs', 'complete_file')],
     'directory tree and descriptor table compared before and after each '
     'success or injected failure')

prop('C15', 'The external sort orders, aligns and keeps every row',
     'H5Handler.sort leaves the key dataset in increasing order and every '
     'other managed dataset permuted the same way: each row stays with its '
     'key, none is lost or duplicated, and unrelated datasets do not change. '
     'This holds for any keys (duplicates, extreme values), number of rows '
     'and buffer sizes able to hold one row per chunk, and behaviour of the '
     'disk.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every key sequence and type, 1 to 3000 rows, chunk and output buffer '
     'size, 0 to 3 other datasets, short and interrupted transfers',
     'Only a sort with many chunks and small buffers reaches the merge '
     'refills.',
     ['ABXpy/h5tools/h5_handler.py'],
     [('chunks', 'H5Handler.sort_chunk'), ('merge', 'H5Handler.sort'),
      ('refill', 'H5Handler.read_chunk')],
     'the sort runs with forced buffers under benign disk faults; compared '
     'with a stable reference up to ties')

prop('C16', 'Buffered writers and readers are faithful',
     'Whatever is written through NP2H5, in any sequence of pieces, to any '
     'number of interleaved datasets, is stored in order and in full when '
     'the context ends, and H52NP returns it in order and in full for any '
     'sequence of requests, on whole datasets or ranges. Reading past the '
     'end and overflowing a fixed size dataset are reported.',
     ['histories', 'configurations', 'fault_sequences'],
     'every sequence of pieces and requests, buffer and chunk size, item '
     'type, fixed or growing datasets, shared file handles, short transfers',
     'Tests write one piece smaller than the buffer.',
     ['ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h52np.py'],
     [('write buffer', 'NP2H5.write / BufferedWriter'),
      ('read buffer', 'H52NP read, iteration, minimum_occupied_portion')],
     'histories of writes and reads against a list model, under benign disk '
     'faults')

prop('C17', 'Feature conversion is complete and order independent',
     'Converting a folder of npz features yields a features file with '
     'exactly the times and features of every source file under its own '
     'name, whatever the order in which the directory is listed, the batch '
     'size and the number of calls appending to the same file. A source file '
     'that cannot be read is reported.',
     ['configurations', 'inputs', 'fault_sequences'],
     'every listing order, batch size, set of files, split into calls, read '
     'error and short transfer',
     'A test sees one listing order and fewer files than a batch.',
     ['ABXpy/misc/any2h5features.py'],
     [('batches', 'any_to_h5features'), ('folder', 'convert')],
     'directory order is a simulated choice, read errors are injected; '
     'content compared with the sources')

prop('C18', 'Existing outputs are refused intact or replaced whole',
     'Over any history of runs, failures and restarts, the task, distance '
     'and score functions raise when their output exists and leave it '
     'identical byte for byte; the commands (and the analysis) replace it, '
     'with the result an empty directory would give. No run changes a file '
     'other than its own output.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every history of up to 16 runs of two experiments sharing one '
     'directory, with removals, I/O errors, interrupts and crashes',
     'Mixing old and new data needs a history: a finished or half finished '
     'output, then another run.',
     ['ABXpy/task.py', 'ABXpy/score.py', 'ABXpy/analyze.py',
      'ABXpy/distance.py', 'ABXpy/distances/distances.py'],
     [('refusal', 'generate_triplets, score, create_distance_jobs'),
      ('replacement', 'main() of the four commands')],
     'seeded histories of real runs and faults; the directory is compared '
     'before and after each')

prop('C19', 'The whole pipeline computes the ABX scores of the definition',
     'The four commands run in sequence on any item and features files and '
     'options print, for each combination of regressors, the average that '
     'the definition of the ABX task gives with the chosen distance (DTW '
     'cosine, DTW Kullback-Leibler, Levenshtein or the user\'s own). This '
     'holds for any number of jobs and interleaving, buffer sizes, leftover '
     'files under the names of the outputs, and interruptions of system '
     'calls. The verification command accepts such input files, whatever '
     'their separators, and refuses features that lack a file of the items.',
     ['inputs', 'schedules', 'configurations', 'fault_sequences'],
     'every combination of options, data, schedule, buffer geometry and '
     'benign disk behaviour',
     'The example run checks one data set without looking at the numbers.',
     ['ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/distances/distances.py',
      'ABXpy/score.py', 'ABXpy/analyze.py'],
     [('commands', 'main() of task, distance, score, analyze'),
      ('verification', 'ABXpy/verify.py check()')],
     'all four commands in simulated processes; task, distances, scores and '
     'results compared with an independent reference model')

NOT_APPLICABLE = []


def na(id, title, statement, why, files, mech, reason):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': ['inputs'], 'text': 'every input'},
        why_tests_cant=why, anchors=dict(files=files, mechanism=[
            {'name': n, 'where': w} for n, w in mech])), None))
    NOT_APPLICABLE.append({'property': id, 'reason': reason})


na('C20', 'DTW returns the cost of the best alignment',
   'dtw(x, y, metric) is the minimal cumulated metric over all monotone '
   'alignments of x and y, divided by the length of the alignment when '
   'normalized.', 'It must hold for every pair of sequences.',
   ['ABXpy/distances/metrics/dtw/dtw.pyx',
    'ABXpy/distances/metrics/cosine.py'],
   [('dynamic programming', '_dtw')],
   'A pure function of its two arguments: no schedule, clock, I/O or fault '
   'can influence it. (C19 compares the distances of whole runs with an '
   'independent implementation, but that is input generation, not '
   'simulation.)')
na('C21', 'fit_integer_type picks the smallest sufficient type',
   'fit_integer_type(n) returns the smallest numpy integer type that can '
   'represent every integer from 0 to n.',
   'It must hold for every n.', ['ABXpy/misc/type_fitting.py'],
   [('type choice', 'fit_integer_type')],
   'A pure function of an integer; nothing to schedule or to fail.')
na('C22', 'Filters and regressors are applied where they are defined',
   'A filter or regressor expression is evaluated at the level its variables '
   'determine and means the same at every level it could be evaluated.',
   'It must hold for every expression.',
   ['ABXpy/sideop/side_operations_manager.py', 'ABXpy/dbfun'],
   [('placement', 'SideOperationsManager.classify_generic')],
   'Parsing and placement of an expression is a pure function of its text '
   'and of the item table; no schedule, clock, I/O or fault takes part.')

LEVELS = {}
if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    py = '/opt/venv/bin/python'
    checks = []
    for d, note in P:
        if note is None:
            continue
        assert d['id'] in props.PROPS, d['id']
        checks.append({
            'property': d['id'],
            'quick_cmd': '%s check.py %s --tier quick' % (py, d['id']),
            'thorough_cmd': '%s check.py %s --tier thorough' % (py, d['id']),
            'evidence_file': 'evidence/%s.json' % d['id'],
            'technique': 'deterministic simulation with fault injection '
            '(seeded search)',
            'level': props.PROPS[d['id']]['level'],
            'level_note': note[0].upper() + note[1:] + '.'})
    m = {'version': 1,
         'setup_cmd': '%s check.py --setup' % py,
         'hooks': {
             'guard': 'ABXSIM_SO',
             'enable': 'no hook was needed in /repo: the seams are an '
             'LD_PRELOAD library (sim/simos.c, named by ABXSIM_SO), stand-ins '
             'for multiprocessing and concurrent.futures installed before '
             'ABXpy is imported (sim/simmp.py), and the buffer size '
             'parameters the code already has',
             'source_commits': []},
         'checks': checks, 'not_applicable': NOT_APPLICABLE,
         'notes': 'Each check recompiles the dtw extension and imports ABXpy '
         'from /repo\'s working tree. VERIF_SEED selects the seeds. '
         'check.py --replay FILE reproduces a violation; check.py '
         '--determinism runs everything twice. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
