From 23f9448632a086390e97207b19d045035a2ded8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 01/41] fix: size the triplets integer type on the item indices

The dataset type was fitted on the number of triplets, so item indices
overflowed when a task has fewer triplets than items (e.g. 1 triplet
over 200 items was stored as [-56, -55, -54]). Likewise the positions
stored in on_across_block_index are bounded by the number of triplets,
not by the number of blocks.
---
 ABXpy/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..e0a48b5 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -741,7 +741,9 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(
+                    max(np.max(db.index.values)
+                        for db in itervalues(self.by_dbs))),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
@@ -749,7 +751,7 @@ class Task(object):
                 dataset='on_across_block_index',
                 n_rows=self.stats['nb_blocks'],
                 n_columns=1,
-                item_type=fit_integer_type(self.stats['nb_blocks']),
+                item_type=fit_integer_type(self.total_n_triplets),
                 fixed_size=False)
 
             empty_by_blocks = []
-- 
2.43.0


From 0c19d9f7f7787b55148b2c1bfc50d26e24fa79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 02/41] fix: make the order of the default across regressors
 deterministic

They were listed in the iteration order of a set of strings, which
changes from one python process to the next. With several across
columns the sampled triplets of a seeded task, hence the results,
depended on PYTHONHASHSEED.
---
 ABXpy/sideop/regressor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..7a524e5 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,7 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From b910ff2cce2245b82213961787bde86952bf1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 03/41] fix: always apply the triplets permutation to the A
 regressors

It was applied only in the presence of ABX filters, so that A
regressors were attributed to the wrong triplets (and had the wrong
length when thresholding).
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index e0a48b5..7b9fe67 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1141,7 +1141,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From 69244c867c8331872ba51566769b88084b7de6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 04/41] fix: look up the on/across/by values of a block by
 label

After a generic filter the index of a by block has holes and the
groups contain labels, not positions: the values were read from
another item, or out of bounds.
---
 ABXpy/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 7b9fe67..ba96b8b 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -820,7 +820,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
@@ -1019,7 +1019,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
-- 
2.43.0


From e9b442c9f85f9a542942807742ac9fae6619ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 05/41] fix: keep the features locations aligned when items are
 dropped

Items with missing labels are dropped from both tables, after what
the index of the by block contains labels and not positions: items were
attributed the file, onset and offset of another item.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index ba96b8b..ef42fdf 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -302,7 +302,7 @@ class Task(object):
             # apply 'by' filters
             if self.filters.by_filter(by_values):
                 # get analogous feat_db
-                by_feat_db = feat_db.iloc[by_frame.index]
+                by_feat_db = feat_db.loc[by_frame.index]
 
                 # drop indexes
                 by_frame = by_frame.reset_index(drop=True)
-- 
2.43.0


From a1e35ffa9996dde732308588c3a77d6940e84e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 06/41] fix: make IncrementalSampler iterable in python 3

---
 ABXpy/sampling/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..0cc7e00 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next  # python 3
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From 565815db37ce1ce8be3b41d7aae1f95938cf1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 07/41] fix: count the levels of B and X by label in
 compute_nb_levels

Same defect as for the block values: the indices are labels of a
possibly filtered by block.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index ef42fdf..9cbac46 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1057,8 +1057,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From 305a7b92396bd83d6d62fae77158476533293b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 08/41] fix: do not reset 'done' on an existing distance file

compute_distances refuses to write in a file which already contains
distances, but only after having marked them as not done.
---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..49cfe6a 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -61,8 +61,8 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
         g = fh.create_group('distances')
+        fh.attrs.create('done', False)
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
     """
     #### Load balancing ####
-- 
2.43.0


From 62447a260afbc8584bc424ce0d98cae39aa6ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 09/41] fix: release the distance file lock when a job fails

An exception raised while holding the lock (unreadable task file, full
disk...) left it locked, the other workers waited for it forever and
compute_distances never returned.
---
 ABXpy/distances/distances.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 49cfe6a..146c09f 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -201,17 +201,19 @@ def run_distance_job(job_description, distance_file, distance,
         # load pandas dataframe containing info for loading the features
         if synchronize:
             distance_file_lock.acquire()
-        store = pandas.HDFStore(pair_file)
-        by_db = store['feat_dbs/' + by]
-        store.close()
-        # load pairs to be computed
-        # indexed relatively to the above dataframe
-        with h5py.File(pair_file, 'r') as fh:
-            attrs = fh['unique_pairs'].attrs[by]
-            pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
-            base = attrs[0]
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            store = pandas.HDFStore(pair_file)
+            by_db = store['feat_dbs/' + by]
+            store.close()
+            # load pairs to be computed
+            # indexed relatively to the above dataframe
+            with h5py.File(pair_file, 'r') as fh:
+                attrs = fh['unique_pairs'].attrs[by]
+                pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
+                base = attrs[0]
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
         A = np.mod(pair_list, base)
         B = pair_list // base
@@ -269,10 +271,12 @@ def run_distance_job(job_description, distance_file, distance,
                 raise
         if synchronize:
             distance_file_lock.acquire()
-        with h5py.File(distance_file, 'a') as fh:
-            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            with h5py.File(distance_file, 'a') as fh:
+                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
 
 # mem in megabytes
-- 
2.43.0


From 5bac46eb4c498276ba5e9c2601b2c725e95e3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 10/41] fix: mark the distances as done when computed on
 several cpus

'done' was only set when running on a single cpu.
---
 ABXpy/distances/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 146c09f..6c9a653 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -328,8 +328,8 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From 36fbbdb34e1a433253c0ee37d08bbe14cdba97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 11/41] fix: detect the death of a distance worker

When a worker process is killed (typically by the kernel when running
out of memory) multiprocessing.Pool.map waits forever for its result.
ProcessPoolExecutor stops the other workers and raises instead.
---
 ABXpy/distances/distances.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 6c9a653..cfa2801 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -6,12 +6,11 @@ import os
 import sys
 import warnings
 import h5features
+from concurrent.futures import ProcessPoolExecutor
 
 # FIXME Enforce single process usage when using python compiled with OMP
 # enabled
 
-# FIXME detect when multiprocessed jobs crashed
-
 # FIXME do a separate functions: generic load_balancing
 
 # FIXME write distances in a separate file
@@ -315,15 +314,12 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
     if n_cpu > 1:
         # use of a manager seems necessary because we're using a Pool...
         distance_file_lock = multiprocessing.Manager().Lock()
-        try:
-            pool = multiprocessing.Pool(n_cpu)
-            args = [(job, distance_file, distance, feature_files, feature_groups,
-                     splitted_features, i, normalized, distance_file_lock)
-                    for i, job in enumerate(jobs)]
-            pool.map(worker, args)
-        finally:
-            pool.close()
-            pool.join()
+        args = [(job, distance_file, distance, feature_files, feature_groups,
+                 splitted_features, i, normalized, distance_file_lock)
+                for i, job in enumerate(jobs)]
+        # unlike multiprocessing.Pool, detects the death of a worker
+        with ProcessPoolExecutor(n_cpu) as pool:
+            list(pool.map(worker, args))
     else:
         run_distance_job(
             jobs[0], distance_file, distance,
-- 
2.43.0


From a9d8403916b1077c4f7338f70b47bf6ea0797f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 12/41] fix: refuse to score incomplete distances

When the computation of the distances was interrupted the missing ones
are zeros, and the scores were silently wrong.
---
 ABXpy/score.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..e3a51b2 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -75,6 +75,11 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     #     bys = [by for by in t['triplets']]
     # FIXME skip empty by datasets, this should not be necessary anymore when
     # empty datasets are filtered at the task file generation level
+    with h5py.File(distance_file, 'r') as d:
+        if not d.attrs.get('done', True):
+            raise ValueError(
+                'The computation of the distances did not complete: ' +
+                distance_file)
     with h5py.File(task_file, 'r') as t:
         bys = t['bys'][...]
         # bys = t['feat_dbs'].keys()
-- 
2.43.0


From eb13934574bc7681d3ab36745e4e6b3b126341d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 13/41] fix: close the descriptor of the temporary pairs file

One descriptor was leaked by call. If the file cannot be created the
error is now reported, instead of an UnboundLocalError.
---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9cbac46..c7af9fe 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -858,8 +858,9 @@ class Task(object):
         # list all pairs
         n_pairs_dict = {}
         max_ind_dict = {}
+        fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+        os.close(fd)
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 68c110bcf6725aafb9fa7c4b1c5f7faf4ae1d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 14/41] fix: open the task file read-only when computing
 distances

It was opened for appending, which locks it: computing the distances of
several features on the same task concurrently failed, as well as
using a write protected task file.
---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index cfa2801..edff437 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -201,7 +201,7 @@ def run_distance_job(job_description, distance_file, distance,
         if synchronize:
             distance_file_lock.acquire()
         try:
-            store = pandas.HDFStore(pair_file)
+            store = pandas.HDFStore(pair_file, mode='r')
             by_db = store['feat_dbs/' + by]
             store.close()
             # load pairs to be computed
-- 
2.43.0


From 79a8df873bd7bfe9094e7d14077b30304d508a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 15/41] fix: open the task file read-only when scoring

---
 ABXpy/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index e3a51b2..ab8fb4a 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -100,7 +100,7 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                 base = pair_attrs[0]
                 pair_key_type = type_fitting.fit_integer_type((base) ** 2 - 1,
                                                               is_signed=False)
-            with h52np.H52NP(task_file) as t:
+            with h5py.File(task_file, 'r') as fh, h52np.H52NP(fh) as t:
                 inp = t.add_subdataset('triplets', 'data', indexes=trip_attrs)
                 idx_start = trip_attrs[0]
                 for triplets in inp:
-- 
2.43.0


From ad9d0fda5d0ebcd9f1e02f2abafa354194c96479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 16/41] fix: open the score file read-only when analyzing

---
 ABXpy/analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..06dd753 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -64,7 +64,7 @@ def collapse(scorefile, taskfile, fid):
 
     """
     # We make the assumption that everything fits in memory...
-    scorefid = h5py.File(scorefile, 'r+')
+    scorefid = h5py.File(scorefile, 'r')
     taskfid = h5py.File(taskfile, 'r')
     bys = taskfid['bys'][...]
     for by_idx, by in enumerate(bys):
-- 
2.43.0


From 13a71b3edd935e9f26ebe6bf3646f32cf8a23f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 17/41] fix: open the features file read-only when verifying it

---
 ABXpy/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..249b818 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,7 +42,7 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
+        h5f = h5py.File(features_file, 'r')
         files = h5f['features']['files'][:]
         for line in f:
             source = str.split(line, ' ')[0]
-- 
2.43.0


From 2997780dd22ad71e70acfdb4ffc61593407360ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 18/41] fix: keep the size of the distance blocks an integer

A job with more pairs than the buffer can hold (12.5 millions with the
default) was divided at float indices, which h5py refuses.
---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index edff437..38209a8 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -81,7 +81,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        int(buffer_max_size * 1000000 / 8))
     by = []
     start = []
     stop = []
-- 
2.43.0


From 6355280a98f887406b5f732e7715e715166480c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 19/41] fix: sample the thresholded triplets with large enough
 indices

The positions drawn among the triplets of a combination were stored in a type
sized on the number of combinations: with more than 255 triplets in a cell they
wrapped around, so triplets were kept twice and others never.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index c7af9fe..9fca5b7 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1199,7 +1199,7 @@ def sort_and_threshold(permut, new_index, ind_type,
     for c in counts:
         if threshold and c > threshold:
             sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+                threshold, c, dtype=permut.dtype)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From bb3f0d96349fe41aa8d47d89d48939a0f317e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 20/41] fix: sample nothing from an empty chunk

When a single item remained, asking IncrementalSampler for a chunk of zero items
could return that item, outside of the chunk.
---
 ABXpy/sampling/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 0cc7e00..f0da8ef 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -140,7 +140,9 @@ def hypergeometric_sample(N, K, n):
     items.
     """
     # handling edge cases
-    if N == 0 or N == 1:
+    if n == 0:
+        k = 0
+    elif N == 0 or N == 1:
         k = K
     else:
         # using symmetries to speed up computations
-- 
2.43.0


From c525ff5ce2d83ddd043abf3eb2e8c8d6ac67b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 21/41] fix: report the errors met when writing the distances

Closing a dataset flushes its buffers, and h5py ignores the errors met
there: distances that could not be written were silently left to zero in
a file marked as done.
---
 ABXpy/distances/distances.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 38209a8..604e8ea 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -272,7 +272,11 @@ def run_distance_job(job_description, distance_file, distance,
             distance_file_lock.acquire()
         try:
             with h5py.File(distance_file, 'a') as fh:
-                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+                data = fh['distances/data']
+                data[attrs[1]+start:attrs[1]+stop, :] = dis
+                # while data is open: h5py ignores the errors met when
+                # the buffers are written by the closing of a dataset
+                fh.flush()
         finally:
             if synchronize:
                 distance_file_lock.release()
-- 
2.43.0


From f34ab3b0e9963cbdb67fdc0f8dd76717d8bd6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 22/41] fix: report the errors met when writing the scores

Closing a dataset flushes its buffers, and h5py ignores the errors met
there: scores that could not be written were silently left to zero.
---
 ABXpy/score.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index ab8fb4a..b67414f 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -85,7 +85,7 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
         # bys = t['feat_dbs'].keys()
         n_triplets = t['triplets']['data'].shape[0]
     with h5py.File(score_file, 'w') as s:
-        s.create_dataset('scores', (n_triplets, 1), dtype=np.int8)
+        dset = s.create_dataset('scores', (n_triplets, 1), dtype=np.int8)
         for n_by, by in enumerate(bys):
             with h5py.File(task_file, 'r') as t, h5py.File(distance_file, 'r') as d:
                 trip_attrs = t['triplets']['by_index'][n_by]
@@ -120,8 +120,11 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                     # 1 if X closer to A, -1 if X closer to B, 0 if equal
                     # distance (this doesn't use 0, 1/2, 1 to use the
                     # compact np.int8 data format)
-                    s['scores'][idx_start:idx_end] = np.reshape(scores, (-1, 1))
+                    dset[idx_start:idx_end] = np.reshape(scores, (-1, 1))
                     idx_start = idx_end
+        # while dset is open: h5py ignores the errors met when the buffers
+        # are written by the closing of a dataset
+        s.flush()
 
 
 def main():
-- 
2.43.0


From 79494485d6577ab921d88941b0d64369ed6143d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 23/41] fix: report the errors met when writing the task file

h5py ignores the errors met when a dataset is closed and PyTables those
met when a file is flushed or closed: a full disk could silently leave
zeros in the task file, and even make the sort of the pairs loop forever
on a wrong by index.
---
 ABXpy/h5tools/np2h5.py |  3 +++
 ABXpy/task.py          | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/ABXpy/h5tools/np2h5.py b/ABXpy/h5tools/np2h5.py
index 9cf6fda..2e8e497 100644
--- a/ABXpy/h5tools/np2h5.py
+++ b/ABXpy/h5tools/np2h5.py
@@ -49,6 +49,9 @@ class NP2H5(object):
             if self.file_open:
                 for buf in self.buffers:
                     buf.flush()
+                # while the datasets are open: h5py ignores the errors met
+                # when the data is written by the closing of a dataset
+                self.file.flush()
                 if self.manage_file:
                     self.file.close()
                     self.file_open = False
diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9fca5b7..c366b19 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -791,12 +791,14 @@ class Task(object):
             for by in empty_by_blocks:
                 del self.by_dbs[by]
 
-            fh.file.create_dataset(
+            # the references keep the datasets open until fh is flushed: h5py
+            # ignores the errors met when a dataset is closed
+            bys_dset = fh.file.create_dataset(
                 'bys', (aux.shape[0] - 1,),
                 dtype=h5py.special_dtype(vlen=str))
-            fh.file['bys'][:] = [str(by) for by in bys]
+            bys_dset[:] = [str(by) for by in bys]
 
-            fh.file['triplets'].create_dataset(
+            by_index_dset = fh.file['triplets'].create_dataset(
                 'by_index', data=by_block_indices)
             fh.file['triplets/data'].resize(aux[-1], axis=0)
 
@@ -960,6 +962,14 @@ class Task(object):
                         # FIXME generate inverse mapping to triplets
                         # (1 and 2) ?
 
+                # read back what was stored: PyTables ignores the errors met
+                # when it flushes or closes a file
+                with pd.HDFStore(output, mode='r') as store:
+                    stored = store['/feat_dbs/' + str(by)]
+                if (stored.shape != self.feat_dbs[by].shape or
+                        (stored.values != self.feat_dbs[by].values).any()):
+                    raise IOError('Error when writing to {}'.format(output))
+
             # Now merge all datasets
             by_index = 0
             with np2h5.NP2H5(output) as f_out:
-- 
2.43.0


From 46f64a35c9ecbdd5fab20d242a8b2ef6955799d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 24/41] fix: leave no partial score file behind a failure

An error, an interruption or a crash while scoring left a valid score file
with zeros for the triplets not scored yet, which analyze took for real
ties.
---
 ABXpy/misc/output_file.py | 22 ++++++++++++++++++++++
 ABXpy/score.py            |  4 +++-
 2 files changed, 25 insertions(+), 1 deletion(-)
 create mode 100644 ABXpy/misc/output_file.py

diff --git a/ABXpy/misc/output_file.py b/ABXpy/misc/output_file.py
new file mode 100644
index 0000000..4d2107f
--- /dev/null
+++ b/ABXpy/misc/output_file.py
@@ -0,0 +1,22 @@
+"""Writing files that are either complete or absent"""
+
+import contextlib
+import os
+
+
+@contextlib.contextmanager
+def complete_file(filename):
+    """Gives the name of a temporary file, renamed to `filename` when the
+    block ends, or removed if it fails: nothing incomplete is ever seen under
+    the name `filename`.
+
+    """
+    filename = os.path.realpath(filename)
+    partial = filename + '.part'
+    try:
+        yield partial
+        os.rename(partial, filename)
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
diff --git a/ABXpy/score.py b/ABXpy/score.py
index b67414f..87e7559 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -45,6 +45,7 @@ import os
 
 import ABXpy.h5tools.h52np as h52np
 import ABXpy.misc.type_fitting as type_fitting
+from ABXpy.misc.output_file import complete_file
 
 
 # FIXME: include distance computation here
@@ -84,7 +85,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
         bys = t['bys'][...]
         # bys = t['feat_dbs'].keys()
         n_triplets = t['triplets']['data'].shape[0]
-    with h5py.File(score_file, 'w') as s:
+    with complete_file(score_file) as partial_file, \
+            h5py.File(partial_file, 'w') as s:
         dset = s.create_dataset('scores', (n_triplets, 1), dtype=np.int8)
         for n_by, by in enumerate(bys):
             with h5py.File(task_file, 'r') as t, h5py.File(distance_file, 'r') as d:
-- 
2.43.0


From 80641ca0722d188026f32e33d244fa2a271deb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 25/41] fix: leave no truncated results file behind a failure

---
 ABXpy/analyze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 06dd753..8754b16 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -33,6 +33,7 @@ import os.path as path
 import os
 import warnings
 
+from ABXpy.misc.output_file import complete_file
 from ABXpy.misc.type_fitting import fit_integer_type
 
 
@@ -152,7 +153,8 @@ def analyze(task_file, score_file, result_file):
         the file that will contain the analysis results
 
     """
-    with open(result_file, 'w+') as fid:
+    with complete_file(result_file) as partial_file, \
+            open(partial_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
         aux = taskfid['regressors']
         tfrk = aux[list(aux)[0]]
-- 
2.43.0


From 5557d2d936814c817869e1dca6f4eecc88cddacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:55 +0000
Subject: [PATCH 26/41] fix: collapse the scores whatever the number of
 combinations

The combinations of regressors were encoded in 64 bits integers, whose
overflow went undetected, and decoded through floats: with many levels
the results were attributed to the wrong labels.
---
 ABXpy/analyze.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 8754b16..7f07772 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -80,16 +80,11 @@ def collapse(scorefile, taskfile, fid):
             continue
         tmp = scorefid['scores'][trip_attrs[0]:trip_attrs[1]]
         scores_arr = np.array(tmp)
-        tmp = np.ascontiguousarray(indices).view(
-            np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
-        n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
-        # encoding the indices of a triplet to a unique index
-        new_index = indices[:, 0].astype(ind_type)
-        for i in range(1, len(n_indices)):
-            new_index = indices[:, i] + n_indices[i] * new_index
+        # the distinct combinations of indices (the number of possible
+        # ones may be too big to encode a combination in an integer), and the
+        # combination of each triplet
+        combinations, new_index = np.unique(
+            indices, axis=0, return_inverse=True)
 
         permut = np.argsort(new_index)
 
@@ -99,7 +94,7 @@ def collapse(scorefile, taskfile, fid):
         mean, unique_index, counts = unique(sorted_index, sorted_scores)
 
         # retrieving the triplet indices from the unique index.
-        tmp = npdecode(unique_index, n_indices)
+        tmp = combinations[unique_index]
 
         regs = tfrk['indexed_datasets']
         indexes = []
-- 
2.43.0


From effd7d4bf02741debfaa49ee9edbefefc621c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:07 +0000
Subject: [PATCH 27/41] fix: verify features files of the current h5features
 format

---
 ABXpy/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index 249b818..d6c9e8f 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -43,7 +43,9 @@ def check(item_file, features_file, verbose=0):
         if verbose:
             print("Opening features file")
         h5f = h5py.File(features_file, 'r')
-        files = h5f['features']['files'][:]
+        # 'files' in the oldest versions of the h5features format
+        group = h5f['features']
+        files = group['items' if 'items' in group else 'files'][:]
         for line in f:
             source = str.split(line, ' ')[0]
             assert source in files, ("The file {} cannot "
-- 
2.43.0


From 210aac677b2e92076debd2e0a46a401e3c5aa10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:40 +0000
Subject: [PATCH 28/41] fix: remove the temporary directory of a sort that
 cannot start

---
 ABXpy/h5tools/h5_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index cd51fc0..1e9d763 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -24,6 +24,7 @@ in memory as a whole, then do internal sorting
 """
 
 import numpy as np
+import shutil
 import tempfile
 import os
 import h5py
@@ -246,7 +247,12 @@ class H5TMP(object):
         self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')
 
     def __enter__(self):
-        self.tmp = h5py.File(self.tmpfile, 'a')
+        try:
+            self.tmp = h5py.File(self.tmpfile, 'a')
+        except BaseException:
+            # __exit__ is not called when __enter__ fails
+            shutil.rmtree(self.tmpdir, ignore_errors=True)
+            raise
         return self.tmp
 
     def __exit__(self, eType, eValue, eTrace):
-- 
2.43.0


From 1a040dab8fe2681574d9c3e3045cad2cc7a4a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:31 +0000
Subject: [PATCH 29/41] fix: do not modify the features when computing a
 distance

---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..d9a41b0 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,14 +38,14 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
         y = y + eps
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     res = __kl_divergence(x, y)
 
     if symmetrized:
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From 9ec6b55161d7c62c47d219b31929764e16f2e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 30/41] fix: abx-analyze fails when its inputs are missing

---
 ABXpy/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 7f07772..c2cbc82 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -188,12 +188,12 @@ def main():
     score_file = args['scorefile']
     if not path.exists(score_file):
         print('No such file: {}'.format(score_file))
-        exit()
+        exit(1)
 
     task_file = args['taskfile']
     if not path.exists(task_file):
         print('No such file: {}'.format(task_file))
-        exit()
+        exit(1)
 
     result_file = args['output']
     if os.path.exists(result_file):
-- 
2.43.0


From c9c952aab621d813bef0bd3f79c6296bb5aa0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:50 +0000
Subject: [PATCH 31/41] fix: refuse an existing distance file before opening it
 for writing

---
 ABXpy/distances/distances.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 604e8ea..e33b805 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -58,6 +58,10 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             attrs = fh['unique_pairs'].attrs[by_dset]
             by_n_pairs.append(attrs[2] - attrs[1])
             total_n_pairs = fh['unique_pairs/data'].shape[0]
+    # raise an error if the file already exists, before opening it for writing
+    if os.path.exists(distance_file):
+        raise ValueError(
+            'The distance file already exists: {}'.format(distance_file))
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
         g = fh.create_group('distances')
-- 
2.43.0


From 7d9f57f29d2693bac6e9670aeb0aced077234fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 32/41] fix: abx-score without a score file argument

---
 ABXpy/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index 87e7559..94352da 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -147,7 +147,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 73e07de647c75c9a9948d78e0365b63fa086f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 33/41] fix: read the auxiliary database files

---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..584f629 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From e77c0735740dbc1883bd15e34c648316af6988aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 34/41] fix: verify item files separated by tabs or with blank
 lines

---
 ABXpy/verify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index d6c9e8f..b8769a1 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -47,7 +47,11 @@ def check(item_file, features_file, verbose=0):
         group = h5f['features']
         files = group['items' if 'items' in group else 'files'][:]
         for line in f:
-            source = str.split(line, ' ')[0]
+            # the columns are separated by spaces or tabs
+            fields = str.split(line)
+            if not fields:
+                continue
+            source = fields[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From 2072e6497befdb1f59e329595854e574c99ac3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 35/41] fix: print the statistics after the generation of the
 triplets

---
 ABXpy/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index c366b19..e053e55 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1074,6 +1074,10 @@ class Task(object):
 
             self.by_stats[by]['nb_levels'] = n
 
+        # generate_triplets removes the by blocks without triplets
+        for stats in self.by_stats.values():
+            stats.setdefault('nb_levels', 0)
+
         self.stats['nb_levels'] = sum(
             stats['nb_levels'] for stats in self.by_stats.values())
 
-- 
2.43.0


From b24eeb8756e10c52eb41360e26ea99d4b2cfb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 36/41] fix: report the errors met when reading an auxiliary
 file

---
 ABXpy/database/database.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 584f629..709790d 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -95,5 +95,8 @@ def load_aux_dbs(basename, db, cols, mainfile):
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
         # conditions: "+str(newcol[1:len(newcol)])+" on key '"+newcol[0]+"'")
         except IOError:
-            pass
+            # most columns have no auxiliary file, but one that cannot be
+            # read is an error
+            if os.path.isfile(auxfile):
+                raise
     return db, forest
-- 
2.43.0


From 5d2d4c9172f97e00a9ba914b601f901fee1cbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 37/41] fix: ignore the by blocks emptied by the filters

---
 ABXpy/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index e053e55..80974c2 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -316,6 +316,10 @@ class Task(object):
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
 
+                # ignore the blocks left without any item by the filters
+                if len(by_frame) == 0:
+                    continue
+
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
 
-- 
2.43.0


From fc66b9380c315779518a6d334b18c0eb8fe5d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 38/41] fix: analyze the tasks whose by labels contain a slash

---
 ABXpy/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index c2cbc82..4f719de 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -151,8 +151,8 @@ def analyze(task_file, score_file, result_file):
     with complete_file(result_file) as partial_file, \
             open(partial_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
-        aux = taskfid['regressors']
-        tfrk = aux[list(aux)[0]]
+        # the name of a by block may be a path of several groups
+        tfrk = taskfid['regressors'][taskfid['bys'][0]]
         regs = tfrk['indexed_datasets']
         string = u''
         for reg in regs:
-- 
2.43.0


From 144f7fed498416e8328e0daa12ac3b190b970e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 39/41] fix: labels with non ASCII characters

---
 ABXpy/h5tools/h5io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8f54dc3..12454bf 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -360,7 +360,8 @@ def get_dtype(data):
 
 def get_array(data):
     if isinstance(data[0], str):
-        return np.array(data, dtype='S')
+        # not an array of bytes: the labels may have non ASCII characters
+        return np.array(data, dtype=object)
     return data
 
 
-- 
2.43.0


From c49d208df4e2e8a232bf3f5eb87658aea4a31d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 40/41] fix: default score file when the distance file is in a
 directory

The name was the concatenation of the path of the task and of the path of
the distance file, in a directory that does not exist.
---
 ABXpy/score.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index 94352da..0b2553f 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -65,7 +65,9 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
         (basename_dist, _) = os.path.splitext(distance_file)
-        score_file = basename_task + '_' + basename_dist + '.score'
+        # the distance file can be in a directory
+        score_file = (basename_task + '_' + os.path.basename(basename_dist) +
+                      '.score')
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
     assert os.path.exists(distance_file), ('Cannot find distance file ' +
-- 
2.43.0


From 404721a27da8f7919861b3b7372579bc9b9e1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 41/41] fix: own distances whose path contains dots

The name of the function was taken from the part of the path that follows
the first dot.
---
 ABXpy/distance.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..452ee84 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -79,9 +79,8 @@ def run(features, task, output, normalized,
         elif distance=="dtw_kl":
             distancefun = dtw_kl_distance
         else:
-            distancepair = distance.split('.')
-            distancemodule = distancepair[0]
-            distancefunction = distancepair[1]
+            # the path of the module may contain dots
+            distancemodule, distancefunction = distance.rsplit('.', 1)
             path, mod = os.path.split(distancemodule)
             sys.path.insert(0, path)
             distancefun = getattr(__import__(mod), distancefunction)
-- 
2.43.0

