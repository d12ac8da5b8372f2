From 2006ba276a7b189d4985b2076a11f4a3abf7c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 01/80] fix: event range selection lost data with event number
 0 and returned data before the range

---
 beam_telescope_analysis/tools/analysis_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..99d2bc6 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -416,8 +416,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
+    if event_number.shape[0] == 0:  # No events in selection
+        return array[0:0]
     if assume_sorted:
         data_event_start = event_number[0]
         data_event_stop = event_number[-1]
@@ -430,6 +430,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         else:
             if event_number[0] > event_start:
                 min_index_data = 0
+            elif event_number[-1] < event_start:  # special case, all data is before the event range
+                return array[0:0]
             else:
                 min_index_data = np.argmin(event_number < event_start)
 
-- 
2.43.0


From ac352cbbae5e5164792e496731f2451dee465880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 02/80] fix: last event before the stop event was lost when
 reading with speedup

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 99d2bc6..d96c524 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -594,7 +594,7 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             else:
                 if last_event_in_chunk >= stop_event_number:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], stop_event_number, side='left')
-                elif current_stop_index == table_max_rows:  # this will also add the last event of the table
+                elif current_stop_index == table_max_rows or (stop_index_known and current_stop_index == stop_index):  # this will also add the last event of the table/before the stop event
                     chunk_stop_index = array_chunk.shape[0]
                 else:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], last_event_in_chunk, side='left')
-- 
2.43.0


From 3617acad92229b9ae51c7761052e9f973de61471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 03/80] fix: out of bounds access of native event functions for
 empty arrays, event number -1 was lost

---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..6171a01 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -22,8 +22,10 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	unsigned int tActualResultIndex = 0;
+	if (rSizeArrayTwo == 0)  // nothing in common, do not access empty array
+		return 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
-		if (rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
+		if (i > 0 && rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
 			continue;
 		tActualEventNumber = rEventArrayOne[i];
 		for (unsigned int j = tActualIndex; j < rSizeArrayTwo; ++j) {
@@ -43,6 +45,14 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
+	if (rSizeArrayOne == 0 || rSizeArrayTwo == 0) {  // result is the other array, do not access empty array
+		const int64_t* tEventArray = (rSizeArrayOne == 0) ? rEventArrayTwo : rEventArrayOne;
+		const unsigned int tSize = (rSizeArrayOne == 0) ? rSizeArrayTwo : rSizeArrayOne;
+		if (tSize > rSizeArrayResult)
+			throw std::out_of_range("The result histogram is too small. Increase size.");
+		std::copy(tEventArray, tEventArray + tSize, result);
+		return tSize;
+	}
 	int64_t tFirstActualEventNumber = rEventArrayOne[0];
 	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
 	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
@@ -126,7 +136,10 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
+	if (rSizeArrayTwo == 0) {  // nothing in common, do not access empty array
+		std::fill(rSelection, rSelection + rSizeArrayOne, 0);
+		return;
+	}
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
-- 
2.43.0


From 442888d15b9ba2a54887707a7ac1c743389ec9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 04/80] fix: line parallel to plane has no intersection (NaN)
 instead of raising

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..3f9b3bf 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -129,7 +129,6 @@ def get_line_intersections_with_plane(line_origins, line_directions, position_pl
 
     # Warn if some intersection cannot be calculated
     if np.any(norm_dot_dir == 0):
-        raise
         logging.warning('Some line plane intersection could not be calculated')
 
     # Calculate t scalar for each line simultaniously, avoid division by 0
-- 
2.43.0


From 8ee029c0cde4cfe3b38b483992e05706e1aaa6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 05/80] fix: azimuth of vectors in the y-z plane was always
 zero

---
 beam_telescope_analysis/tools/geometry_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 3f9b3bf..0816a60 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,11 +156,12 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    sel = (x != 0) | (y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
-- 
2.43.0


From 6042091f64d820ca9b0766d53b26e243c26f970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 06/80] fix: Euler angles could not be calculated for gimbal
 lock (beta = +-pi/2)

---
 .../tools/geometry_utils.py                    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 0816a60..baaefc8 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -324,14 +324,16 @@ def euler_angles(R):
     if not is_rotation_matrix(R):
         raise ValueError("%s is not a rotation matrix" % str(R))
 
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
+    # gimbal lock, cos(beta) is 0 within the precision of the rotation matrix
+    gimbal_lock = np.hypot(R[0, 0], R[1, 0]) < 1e-8
+    if gimbal_lock and R[2, 0] < 0:
+        gamma_1 = 0.0
+        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
+        beta_1 = np.pi / 2
+    elif gimbal_lock:
+        gamma_1 = 0.0
+        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
+        beta_1 = -np.pi / 2
     else:
         beta_1 = -np.arcsin(R[2, 0])
         # for very small values use 0.0 and remove minus sign from 0.0
-- 
2.43.0


From 9b21db7eee56a1246393fa40629d1d8194a087cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 07/80] fix: exceptions during parallel processing of tables
 were swallowed or made the call hang

---
 beam_telescope_analysis/tools/smc.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..d753d0a 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -326,20 +326,31 @@ class SMC(object):
             self.force_stop.set()
             raise
 
+    def _run(self, target):
+        ''' Thread main: remember the first exception and stop all other threads.
+        '''
+        try:
+            target()
+        except BaseException as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
 
+        self.exception = None
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -352,10 +363,19 @@ class SMC(object):
         self.writer_thread.join()
         self.writer_thread = None
 
-        self.pool.close()
+        if self.exception is not None:
+            # do not wait for the remaining chunks
+            self.pool.terminate()
+        else:
+            self.pool.close()
         self.pool.join()
         self.pool = None
 
+        if self.exception is not None:
+            if self.out_file is not None and self.out_file.isopen:
+                self.out_file.close()
+            raise self.exception
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 1d6395afc61b3d0beee2fb49417e466dc9cf5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 08/80] fix: bins were mixed up when adding multidimensional
 histograms of different shape

---
 beam_telescope_analysis/tools/smc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index d753d0a..10b9c25 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -290,11 +290,13 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if not np.array_equal(new_shape, hists[i].shape):
+                        # Keep the bins at their index, also for more than one dimension
+                        new_hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        new_hist[tuple(slice(n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = new_hist
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From 649772779c1a2e16dca5ca68a713a258b4468a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 09/80] fix: parallel processing of an empty table failed

---
 beam_telescope_analysis/tools/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 10b9c25..a9b7840 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -180,6 +180,9 @@ class SMC(object):
             self.force_stop.set()
             raise
         gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+        if self.n_rows == 0:
+            # nothing to read, but the function is needed to determine the type of the result
+            gen_data = iter([(node[:], 0)])
         while not self.force_stop.wait(0.01):
             try:
                 try:
-- 
2.43.0


From 0ef05b5734fe056b7de012abfa78442d20fe6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 10/80] fix: parallel processing of tables hangs when a worker
 process dies

---
 beam_telescope_analysis/tools/smc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index a9b7840..7d1f426 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -252,6 +252,9 @@ class SMC(object):
                 try:
                     res_data = res.get(timeout=0.01)
                 except TimeoutError:
+                    # the result of a dead process will never arrive
+                    if any(process.exitcode is not None for process in self.processes):
+                        raise RuntimeError('A worker process died unexpectedly')
                     continue
             res = None
             if not isinstance(res_data, (list, tuple)):
@@ -343,6 +346,7 @@ class SMC(object):
 
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
+        self.processes = list(self.pool._pool)
 
         self.exception = None
         self.out_file_opened.clear()
-- 
2.43.0


From 75a7eea086aa8b17246ba95e0d61b048cecc3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 11/80] fix: parallel processing hangs or is incomplete if
 function returns None on one core

---
 beam_telescope_analysis/tools/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 7d1f426..173772a 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -215,6 +215,9 @@ class SMC(object):
                 pass
             if self.n_cores == 1:
                 res = self.func(data, **self.func_kwargs)
+                if res is None:
+                    # None marks the end of the results
+                    raise RuntimeError('Return value of "func" must be numpy.ndarray')
             else:
                 res = apply_async(
                     pool=self.pool,
-- 
2.43.0


From 8f0025015c34c7eb5ca88e95c55eaec014d3c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 12/80] fix: files were processed with the wrong DUT if
 select_duts is not in ascending order

---
 beam_telescope_analysis/hit_analysis.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..11fb9b0 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,11 +62,11 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -211,11 +211,11 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -466,11 +466,11 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -706,11 +706,11 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
@@ -1274,7 +1274,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 5131fac508e02d9fd8546fdad4ff505c9e06e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 13/80] fix: clusters were overwritten by the clusters of
 following chunks when using a single core

---
 beam_telescope_analysis/hit_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 11fb9b0..49a31f8 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1094,7 +1094,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
-        return cluster_hits, clusters  # return hits array with additional columns for cluster ID, and cluster array
+        # the arrays are buffers of the clusterizer and will be overwritten by the next chunk when using a single core
+        return cluster_hits.copy(), clusters.copy()  # return hits array with additional columns for cluster ID, and cluster array
 
     smc.SMC(
         input_filename=input_hit_file,
-- 
2.43.0


From 8c61eb95b8e9d07c51443459c99b36e52007e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 14/80] fix: seed position of clusters of local positions was
 truncated to an unsigned integer

---
 beam_telescope_analysis/hit_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 49a31f8..1ed9408 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -993,8 +993,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
-- 
2.43.0


From 1f1837d3c6fdcdf3650fad421c752ed11a9884db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 15/80] fix: clustering failed if no hit was accepted

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 1ed9408..2d913cd 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1116,7 +1116,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
     # Calculate cluster size histogram
     def cluster_size_hist_func(clusters):
         n_hits = clusters['n_hits']
-        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits) + 1,))
+        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits, initial=0) + 1,))
         return hist
 
     smc.SMC(
-- 
2.43.0


From 1d6d443fa9838c641bf4e09bb00b7f9fc65a3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 16/80] fix: indices were clustered instead of positions if the
 hit table contains both

---
 beam_telescope_analysis/hit_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 2d913cd..96442a4 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1079,8 +1079,13 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         else:
+            if copy_hit_indices:
+                # the clusterizer names the positions column/row internally, they must not be overwritten by the indices
+                position_hits = hits[[name for name in hits.dtype.names if name not in ('column', 'row')]]
+            else:
+                position_hits = hits
             cluster_hits, clusters = clusterizer.cluster_hits(
-                hits=hits,
+                hits=position_hits,
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         if copy_hit_indices:
-- 
2.43.0


From 9d45a5e21da64e3c67ce1b6f735c8a9d0b45fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 17/80] fix: converting coordinates failed if an output file is
 given

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 96442a4..252fa31 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From d39dbb5b94a6300c3df40fb31e237f21ccb3fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 18/80] fix: converting local positions to indices truncated
 the index

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 252fa31..1f50329 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -166,11 +166,13 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # index of the pixel, do not truncate
+                    out_data['column'], out_data['row'] = np.rint(column), np.rint(row)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From 374e8f7d6f30be485022cbfbae852ac8f50a5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 19/80] fix: decoding of Morton numbers with more than 32 bit

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index d96c524..5a54d95 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1013,7 +1013,7 @@ def morton_1(x):
     x = (x | (x >> 2)) & 0x0F0F0F0F0F0F0F0F
     x = (x | (x >> 4)) & 0x00FF00FF00FF00FF
     x = (x | (x >> 8)) & 0x0000FFFF0000FFFF
-    x = (x | (x >> 16)) & 0xFFFFFFFFFFFFFFFF  # TODO: 0x00000000FFFFFFFF
+    x = (x | (x >> 16)) & 0x00000000FFFFFFFF
     return x
 
 
-- 
2.43.0


From 66bd6067d324e3e3ca038dca9d8b1e80ac475200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 20/80] fix: columns used in a query string were not found
 (KeyError), functions and numbers were taken for columns

---
 beam_telescope_analysis/tools/data_selection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..246b965 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -479,7 +478,6 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}  # expose columns; not a copy, this is just a reference
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, global_dict={}, casting="safe")]
-- 
2.43.0


From c9f0860695aac6c8b3b4919103d2ad00774cee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 21/80] fix: combining files failed if a table is empty

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 246b965..a7b514d 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From cbee8c329c90e56fde1f295adecfee9b86c90eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 22/80] fix: track selection failed without hit selection or if
 no track is selected

---
 beam_telescope_analysis/tools/data_selection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index a7b514d..94cd2e0 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -428,11 +428,16 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                             select &= ((tracks['isolated_hit_flag'] & isolated_hit_mask_mod) == isolated_hit_flags_mod)
                         n_tracks_iso_hit_mask += np.count_nonzero(select)
                         tracks = tracks[select]
+                    else:
+                        n_tracks_hit_mask += n_tracks_chunk
+                        n_tracks_quality_mask += n_tracks_chunk
+                        n_tracks_iso_track_mask += n_tracks_chunk
+                        n_tracks_iso_hit_mask += n_tracks_chunk
                     if query[index]:
                         tracks = table_where(
                             arr=tracks,
                             query_str=query[index])
-                        n_tracks_query += tracks.shape[0]
+                    n_tracks_query += tracks.shape[0]
 
                     if max_events:
                         unique_events = np.unique(tracks["event_number"])
@@ -473,7 +478,7 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % tuple(100.0 * n_selected / n_total if n_total else 0.0 for n_selected, n_total in [(n_tracks_query, total_n_tracks), (n_tracks_hit_mask, total_n_tracks), (n_tracks_quality_mask, n_tracks_hit_mask), (n_tracks_iso_track_mask, n_tracks_quality_mask), (n_tracks_iso_hit_mask, n_tracks_iso_track_mask), (n_tracks_query, n_tracks_iso_hit_mask)]))
 
     return output_tracks_file
 
-- 
2.43.0


From 87ae338aa60ffe118e6102f5c98e0db2494a2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 23/80] fix: division by zero if the maximum number of events
 is reached before the last chunk

---
 beam_telescope_analysis/tools/data_selection.py | 4 ++++
 beam_telescope_analysis/track_analysis.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 94cd2e0..8eab567 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -157,6 +157,8 @@ def reduce_events(input_file, max_events, output_file=None, chunk_size=1000000):
 
                     if total_n_tracks == index_chunk:  # last chunk, adding all remaining events
                         select_n_events = max_events - total_n_events_stored
+                    elif total_n_events_stored >= max_events:  # all events already stored
+                        select_n_events = 0
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
@@ -444,6 +446,8 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                         n_events_chunk = unique_events.shape[0]
                         if total_n_tracks == index_chunk:  # last chunk, adding all remaining events
                             select_n_events = max_events - total_n_events_stored
+                        elif total_n_events_stored >= max_events:  # all events already stored
+                            select_n_events = 0
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..155728a 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -211,6 +211,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 if max_events:
                     if total_n_tracks == index_chunk:  # last chunk, adding all remaining events
                         select_n_events = max_events - total_n_events_stored
+                    elif total_n_events_stored >= max_events:  # all events already stored
+                        select_n_events = 0
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
@@ -893,6 +895,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                     if max_events:
                         if total_n_tracks == index_chunk:  # last chunk, adding all remaining events
                             select_n_events = max_events - total_n_events_stored
+                        elif total_n_events_stored >= max_events:  # all events already stored
+                            select_n_events = 0
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
-- 
2.43.0


From e0bed792d2e5c90b832fc1ce1a3f9dedc739f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 24/80] fix: hits were mixed up when finding tracks with more
 than ten DUTs

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 155728a..b5641ad 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -289,7 +289,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From e8eb56ee20a6a28272f77cd406940bcf651074b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 25/80] fix: track finding failed if no DUT is selected for
 extrapolation

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index b5641ad..635f079 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, types
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(types.int64)
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 20fb8439f1c4f649239781926f7df876ce19c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 26/80] fix: cluster of events after the last event of the
 first DUT were lost when merging

---
 beam_telescope_analysis/hit_analysis.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 1f50329..8cf93e5 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1622,15 +1622,25 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
         with tb.open_file(input_cluster_files[0], mode='r') as in_file_h5:  # Open DUT0 cluster file
             pbar = tqdm(total=in_file_h5.root.Clusters.shape[0], ncols=80)
 
-            for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
+            if in_file_h5.root.Clusters.nrows > 0:
+                clusters_dut_0 = analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size)
+            else:  # DUT0 has no cluster, other DUTs can have
+                clusters_dut_0 = [(in_file_h5.root.Clusters[:], 0)]
+            for actual_cluster_dut_0, start_indices_data_loop[0] in clusters_dut_0:  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
+                if start_indices_data_loop[0] == in_file_h5.root.Clusters.nrows:  # last chunk, adding all remaining cluster of the other DUTs
+                    actual_stop_event_number = None
+                else:
+                    actual_stop_event_number = actual_event_numbers[-1] + 1
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
+                if common_event_numbers.shape[0] == 0:  # no cluster at all
+                    break
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
                 # set default values
-- 
2.43.0


From 07d1243f02928e1fa4a49d703274d83da905862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 27/80] fix: correlation histogram was one bin too small due to
 floating point rounding (out of bounds access)

---
 beam_telescope_analysis/hit_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 8cf93e5..2647ae4 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -320,8 +320,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             hist_y_size = math.ceil(y_size / resolution[1]) * resolution[1]
             hist_y_extent = [y_center - hist_y_size / 2.0, y_center + hist_y_size / 2.0]
             # Creating histograms for the correlation
-            x_correlation = np.zeros([int(hist_x_size / resolution[0]), int(hist_x_size / resolution[0])], dtype=np.int32)
-            y_correlation = np.zeros([int(hist_y_size / resolution[1]), int(hist_y_size / resolution[1])], dtype=np.int32)
+            x_correlation = np.zeros([int(round(hist_x_size / resolution[0])), int(round(hist_x_size / resolution[0]))], dtype=np.int32)
+            y_correlation = np.zeros([int(round(hist_y_size / resolution[1])), int(round(hist_y_size / resolution[1]))], dtype=np.int32)
 
             # shape_column = (dut.n_columns, dut.n_columns)
             # shape_row = (dut.n_rows, dut.n_rows)
@@ -1344,8 +1344,8 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 dut_hist_y_size = math.ceil(dut_y_size / resolution[1]) * resolution[1]
                 dut_hist_y_extent.append([dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0])
                 # Creating histograms for the correlation
-                x_correlations.append(np.zeros([int(dut_hist_x_size / resolution[0]), int(ref_hist_x_size / resolution[0])], dtype=np.int32))
-                y_correlations.append(np.zeros([int(dut_hist_y_size / resolution[1]), int(ref_hist_y_size / resolution[1])], dtype=np.int32))
+                x_correlations.append(np.zeros([int(round(dut_hist_x_size / resolution[0])), int(round(ref_hist_x_size / resolution[0]))], dtype=np.int32))
+                y_correlations.append(np.zeros([int(round(dut_hist_y_size / resolution[1])), int(round(ref_hist_y_size / resolution[1]))], dtype=np.int32))
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
-- 
2.43.0


From 0118e25bde0686a7a11bc28ee0f1f2f73e491b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 28/80] fix: change of event number was not stored if the last
 event of a chunk has event number 0

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 2647ae4..80ddb54 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -388,7 +388,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
-                if last_event:
+                if last_event is not None:
                     event_delta = np.concatenate((np.array([event_numbers[0] - last_event]),
                                                   event_delta))
                 last_event = event_numbers[-1]
-- 
2.43.0


From f294343097c3601384022d700f8ab4f680a39c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 29/80] fix: checking cluster files failed, and error message
 of positions outside the sensor failed

---
 beam_telescope_analysis/hit_analysis.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 80ddb54..c412388 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -353,18 +353,19 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
+                prefix = 'mean_' if use_clusters else ''
                 if use_positions is False:
-                    if np.any(data_chunk['column'] < 1) or np.any(data_chunk['row'] < 1):
+                    if np.any(data_chunk[prefix + 'column'] < 1) or np.any(data_chunk[prefix + 'row'] < 1):
                         raise RuntimeError('The column/row index does not start at 1!')
-                    if np.any(data_chunk['column'] > dut.n_columns) or np.any(data_chunk['row'] > dut.n_rows):
+                    if np.any(data_chunk[prefix + 'column'] > dut.n_columns) or np.any(data_chunk[prefix + 'row'] > dut.n_rows):
                         raise RuntimeError('The column/row index exceeds the number of pixels (max. %s/%s)!' % (dut.n_columns, dut.n_rows))
                 if use_positions is True:
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
-                    if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
-                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.x_extent[0], dut.x_extent[1]))
-                    if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
-                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.y_extent[0], dut.y_extent[1]))
+                    if np.any(data_chunk[prefix + 'x'] < x_extent[0]) or np.any(data_chunk[prefix + 'x'] > x_extent[1]):
+                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
+                    if np.any(data_chunk[prefix + 'y'] < y_extent[0]) or np.any(data_chunk[prefix + 'y'] > y_extent[1]):
+                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
 
                 if use_clusters:
                     if use_positions:
-- 
2.43.0


From d6960bf32a1fb27677647d018c84abfe627629bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 30/80] fix: hits of neighboring events were not correlated if
 the events are in different chunks

---
 beam_telescope_analysis/hit_analysis.py         | 16 ++++++++++++----
 beam_telescope_analysis/tools/analysis_utils.py |  6 ++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index c412388..567af61 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -350,6 +350,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     fletcher32=False))
 
             last_event_number = 0
+            last_hits = None  # hits at the end of the last chunk that are correlated with the hits of the actual chunk
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
@@ -379,13 +380,20 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                         x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
                 x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
                 y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                hits = [data_chunk['event_number'], x_indices, y_indices]
+                start_index = 0
+                if last_hits is not None:
+                    start_index = last_hits[0].shape[0]
+                    hits = [np.concatenate(arrays) for arrays in zip(last_hits, hits)]
                 analysis_utils.correlate_hits_on_event_range(
-                    event_numbers=data_chunk['event_number'],
-                    x_indices=x_indices,
-                    y_indices=y_indices,
+                    event_numbers=hits[0],
+                    x_indices=hits[1],
+                    y_indices=hits[2],
                     x_corr_hist=x_correlation,
                     y_corr_hist=y_correlation,
-                    event_range=event_range)
+                    event_range=event_range,
+                    start_index=start_index)
+                last_hits = [array[hits[0] > hits[0][-1] - event_range] for array in hits]
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 5a54d95..1b159d3 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -145,7 +145,7 @@ def correlate_position_on_event_number(ref_event_numbers, dut_event_numbers, ref
 
 
 @njit(locals={'curr_event_number': numba.int64, 'last_event_number': numba.int64, 'curr_index': numba.int64, 'corr_index': numba.int64})
-def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range):
+def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range, start_index=0):
     """Correlating the hit indices of different events in a certain range.
     For unambiguous event building no correlation should be seen.
 
@@ -165,10 +165,12 @@ def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hi
     event_range : uint
         The number of events to use for correlation,
         e.g., event_range = 1 correlates to predecessing event hits with the current event hits.
+    start_index : uint
+        Index of the first hit to be correlated with the hits of the preceding events.
     """
     last_event_number = -1
     # Loop over hits, outer loop
-    for curr_index in range(event_numbers.shape[0]):
+    for curr_index in range(start_index, event_numbers.shape[0]):
         curr_event_number = event_numbers[curr_index]
         # calculate new start index for inner loop if new event occurs
         if curr_event_number != last_event_number:
-- 
2.43.0


From 6d26f46cc9a845faae54a72301c38f8d2c615a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 31/80] fix: hits on the upper edge of the sensor were written
 outside of the correlation histogram

---
 beam_telescope_analysis/hit_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 567af61..e504e5b 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -378,8 +378,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                         x_pos, y_pos = data_chunk['x'], data_chunk['y']
                     else:
                         x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
-                x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
-                y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                x_indices = np.minimum(((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32), x_correlation.shape[0] - 1)  # upper edge belongs to last bin
+                y_indices = np.minimum(((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32), y_correlation.shape[0] - 1)  # upper edge belongs to last bin
                 hits = [data_chunk['event_number'], x_indices, y_indices]
                 start_index = 0
                 if last_hits is not None:
@@ -1530,10 +1530,10 @@ def _correlate_position(ref, dut, ref_use_clusters, ref_use_positions, ref_data,
                     dut_x_pos, dut_y_pos, _ = dut.local_to_global_position(x=dut_data['x'], y=dut_data['y'], z=np.zeros_like(dut_data['x']))
                 else:
                     dut_x_pos, dut_y_pos, _ = dut.index_to_global_position(column=dut_data['column'], row=dut_data['row'])
-            ref_x_indices = ((ref_x_pos - ref_hist_x_extent[0]) / resolution[0]).astype(np.uint32)
-            ref_y_indices = ((ref_y_pos - ref_hist_y_extent[0]) / resolution[1]).astype(np.uint32)
-            dut_x_indices = ((dut_x_pos - dut_hist_x_extent[0]) / resolution[0]).astype(np.uint32)
-            dut_y_indices = ((dut_y_pos - dut_hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+            ref_x_indices = np.minimum(((ref_x_pos - ref_hist_x_extent[0]) / resolution[0]).astype(np.uint32), x_correlation.shape[1] - 1)  # upper edge belongs to last bin
+            ref_y_indices = np.minimum(((ref_y_pos - ref_hist_y_extent[0]) / resolution[1]).astype(np.uint32), y_correlation.shape[1] - 1)  # upper edge belongs to last bin
+            dut_x_indices = np.minimum(((dut_x_pos - dut_hist_x_extent[0]) / resolution[0]).astype(np.uint32), x_correlation.shape[0] - 1)  # upper edge belongs to last bin
+            dut_y_indices = np.minimum(((dut_y_pos - dut_hist_y_extent[0]) / resolution[1]).astype(np.uint32), y_correlation.shape[0] - 1)  # upper edge belongs to last bin
             analysis_utils.correlate_position_on_event_number(
                 ref_event_numbers=ref_event_number,
                 dut_event_numbers=dut_event_number,
-- 
2.43.0


From f232c2e385150db19d5b2df9e21ba39f86556539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 32/80] fix: decreasing event number at the end of a chunk was
 not detected when checking hits

---
 beam_telescope_analysis/hit_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index e504e5b..3e87d49 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -350,6 +350,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     fletcher32=False))
 
             last_event_number = 0
+            n_checked_hits = 0
             last_hits = None  # hits at the end of the last chunk that are correlated with the hits of the actual chunk
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
@@ -405,6 +406,11 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 out_dE.append(event_delta)
                 out_E.append(event_numbers)
                 last_event_number = event_numbers[-1]
+                n_checked_hits += data_chunk.shape[0]
+
+            # Hits are not read if event number decreases at the end of a chunk
+            if n_checked_hits != node.nrows:
+                raise RuntimeError('The event number does not always increase.')
 
             out_col = out_file_h5.create_carray(
                 where=out_file_h5.root,
-- 
2.43.0


From 8278fb01e585e2a5095f1008177742df6afd16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 33/80] fix: fitting tracks failed when keeping all track
 candidates (keep_data)

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 635f079..8391be1 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1402,9 +1402,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From efa1df66fb2e1321f50ca7d1f6ced18bb07c5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 34/80] fix: reduced chi2 of tracks with two hits was divided
 by zero degrees of freedom

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 8391be1..f08ff68 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1271,7 +1271,7 @@ def store_track_data(out_file_h5, track_candidates_chunk, select_fit_tracks, sel
         # track_chi2s = np.sum(np.ma.masked_invalid(xy_residuals_squared[:, select_fit_duts]), axis=1) / np.count_nonzero(~np.isnan(xy_residuals_squared[:, select_fit_duts]), axis=1)
         track_chi2s = (np.sum(np.ma.masked_invalid(x_residuals_squared[:, select_fit_duts] / x_err_squared[:, select_fit_duts]), axis=1) + np.sum(np.ma.masked_invalid(y_residuals_squared[:, select_fit_duts] / y_err_squared[:, select_fit_duts]), axis=1))
         # select tracks that have more than 2 data points
-        select_nonzero = (track_chi2s != 0.0)
+        select_nonzero = (np.count_nonzero(~np.isnan(x_residuals_squared[:, select_fit_duts]), axis=1) > 2)
         # divide by d.o.f.
         track_chi2s_red = np.zeros_like(track_chi2s)
         track_chi2s_red[select_nonzero] = track_chi2s[select_nonzero] / (2 * (np.count_nonzero(~np.isnan(x_residuals_squared[:, select_fit_duts]), axis=1)[select_nonzero] - 2))
-- 
2.43.0


From 2f8409754ae2abedcc83ce54dced69c502251b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 35/80] fix: Kalman fit mixed up the planes if their z order
 differs from their index order

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..7ea9ba9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,7 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        track_seed = reference_states[:, z_sorted_dut_indices[0], :] + filtered_states_b[:, z_sorted_dut_indices[0], :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +842,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +851,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From 30c66bfdc0843677ebb57362b97a1dd7d7f5572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 36/80] fix: Kalman fit failed if scattering planes are given

---
 beam_telescope_analysis/track_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index f08ff68..dcd7d51 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1618,6 +1618,7 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
     z_sorted_dut_indices = np.argsort(intersections_z_axis)
 
     if scattering_planes:
+        alpha = np.append(alpha, np.ones(len(scattering_planes)))  # no scaling, scattering planes have no hits
         track_hits = np.append(arr=track_hits, values=np.full((track_hits.shape[0], len(scattering_planes), track_hits.shape[2]), fill_value=np.nan, dtype=np.float64), axis=1)
 
     chunk_size = track_hits.shape[0]
-- 
2.43.0


From 7e4d565aa4cc4861b2efffe8958f208419629b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 37/80] fix: Kalman fit failed if the first plane is a
 scattering plane

---
 beam_telescope_analysis/track_analysis.py | 27 +++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index dcd7d51..55a6f62 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1563,16 +1563,18 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
             rotation_gamma=first_dut.rotation_gamma)
 
         # Convert global track slopes into local track slopes such that they can be used for the Kalman Filter
-        slopes_x_local, slopes_y_local, slopes_z_local = first_dut.global_to_local_position(
+        # The first plane may be a scattering plane, which provides no coordinate transformation
+        slopes_x_local, slopes_y_local, slopes_z_local = geometry_utils.apply_transformation_matrix(
             x=slopes[:, 0],
             y=slopes[:, 1],
             z=slopes[:, 2],
-            translation_x=0.0,
-            translation_y=0.0,
-            translation_z=0.0,
-            rotation_alpha=first_dut.rotation_alpha,
-            rotation_beta=first_dut.rotation_beta,
-            rotation_gamma=first_dut.rotation_gamma)
+            transformation_matrix=geometry_utils.global_to_local_transformation_matrix(
+                x=0.0,
+                y=0.0,
+                z=0.0,
+                alpha=first_dut.rotation_alpha,
+                beta=first_dut.rotation_beta,
+                gamma=first_dut.rotation_gamma))
 
         slopes_local = np.column_stack([slopes_x_local, slopes_y_local, slopes_z_local])
         slopes_local[slopes_local[:, 2] < 0.0] = -slopes_local[slopes_local[:, 2] < 0.0]
@@ -1581,10 +1583,17 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
         slopes_x_local, slopes_y_local, slopes_z_local = slopes_local[:, 0], slopes_local[:, 1], slopes_local[:, 2]
 
         # Convert global track intersections into local track intersections such that they can be used for the Kalman Filter
-        intersection_x_local, intersection_y_local, intersection_z_local = first_dut.global_to_local_position(
+        intersection_x_local, intersection_y_local, intersection_z_local = geometry_utils.apply_transformation_matrix(
             x=intersections_global[:, 0],
             y=intersections_global[:, 1],
-            z=intersections_global[:, 2])
+            z=intersections_global[:, 2],
+            transformation_matrix=geometry_utils.global_to_local_transformation_matrix(
+                x=first_dut.translation_x,
+                y=first_dut.translation_y,
+                z=first_dut.translation_z,
+                alpha=first_dut.rotation_alpha,
+                beta=first_dut.rotation_beta,
+                gamma=first_dut.rotation_gamma))
 
         track_seed[:, 0], track_seed[:, 1] = intersection_x_local, intersection_y_local  # Position
         track_seed[:, 2], track_seed[:, 3] = slopes_x_local / slopes_z_local, slopes_y_local / slopes_z_local  # Slope
-- 
2.43.0


From fb382ff567312328f599fb079074a71a0328b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 38/80] fix: calculating residuals failed if a chunk has no
 track with a hit inside the limits

---
 beam_telescope_analysis/result_analysis.py | 45 +++++++++++-----------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..1f6d0c2 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -215,50 +215,51 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                         hist_2d_residuals_x_edges = np.linspace(dut_x_size[0], dut_x_size[1], actual_dut.n_columns + 1, endpoint=True)
                         hist_2d_residuals_y_edges = np.linspace(dut_y_size[0], dut_y_size[1], actual_dut.n_rows + 1, endpoint=True)
                         hist_2d_edges = [hist_2d_residuals_x_edges, hist_2d_residuals_y_edges]
+                        hist_2d_range = [dut_x_size, dut_y_size]
 
                         # local X residual against X position
                         local_x_residuals_x_pos_hist, _, _ = np.histogram2d(
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist = np.nan_to_num(stat_local_x_residuals_x_pos_hist)
-                        count_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
 
                         # local Y residual against Y position
                         local_y_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist = np.nan_to_num(stat_local_y_residuals_y_pos_hist)
-                        count_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
 
                         # local Y residual against X position
                         local_y_residuals_x_pos_hist, _, _ = np.histogram2d(
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_hist = np.nan_to_num(stat_local_y_residuals_x_pos_hist)
-                        count_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
 
                         # local X residual against Y position
                         local_x_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_hist = np.nan_to_num(stat_local_x_residuals_y_pos_hist)
-                        count_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
 
                         # 2D residuals
-                        stat_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
+                        stat_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges, range=hist_2d_range)
                         stat_2d_residuals_hist = np.nan_to_num(stat_2d_residuals_hist)
-                        count_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
+                        count_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges, range=hist_2d_range)
 
                         # 2D hits
-                        count_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
+                        count_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=hist_2d_range)
 
                     else:  # adding data to existing histograms
                         local_x_residuals_hist += np.histogram(difference_local_limit_xy[:, 0], bins=local_x_residuals_hist_edges)[0]
@@ -269,9 +270,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist_tmp = np.nan_to_num(stat_local_x_residuals_x_pos_hist_tmp)
-                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_x_pos_hist, stat_local_x_residuals_x_pos_hist_tmp]), axis=0, weights=np.stack([count_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local Y residual against Y position
@@ -279,9 +280,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist_tmp = np.nan_to_num(stat_local_y_residuals_y_pos_hist_tmp)
-                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_y_pos_hist, stat_local_y_residuals_y_pos_hist_tmp]), axis=0, weights=np.stack([count_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist_tmp]), returned=True)
 
                         # local Y residual against X position
@@ -289,9 +290,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_tmp = np.nan_to_num(stat_local_y_residuals_x_pos_tmp)
-                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_x_pos_hist, stat_local_y_residuals_x_pos_tmp]), axis=0, weights=np.stack([count_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local X residual against Y position
@@ -299,19 +300,19 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_tmp = np.nan_to_num(stat_local_x_residuals_y_pos_tmp)
-                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_y_pos_hist, stat_local_x_residuals_y_pos_tmp]), axis=0, weights=np.stack([count_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist_tmp]), returned=True)
 
                         # 2D residuals
-                        stat_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
+                        stat_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges, range=hist_2d_range)
                         stat_2d_residuals_hist_tmp = np.nan_to_num(stat_2d_residuals_hist_tmp)
-                        count_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
+                        count_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges, range=hist_2d_range)
                         stat_2d_residuals_hist, count_2d_residuals_hist = np.ma.average(a=np.stack([stat_2d_residuals_hist, stat_2d_residuals_hist_tmp]), axis=0, weights=np.stack([count_2d_residuals_hist, count_2d_residuals_hist_tmp]), returned=True)
 
                         # 2D hits
-                        count_2d_hist += stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                        count_2d_hist += stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=hist_2d_range)[0]
 
                 if initialize is True:
                     raise RuntimeError("No tracks were processed.")
-- 
2.43.0


From 6fcc7dd571e3e21c9a94ebbea7bf6bd9be092979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 39/80] fix: number of bins of the residual histograms was one
 too small due to floating point rounding

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1f6d0c2..ec3bc8e 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -168,7 +168,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             width = max(plot_n_pixels * actual_dut.column_size, actual_dut.column_size * np.ceil(plot_n_pixels * fwhm_x_local / actual_dut.column_size))
                             if np.mod(width / actual_dut.column_size, 2) != 0:
                                 width += actual_dut.column_size
-                            nbins = int(nbins_per_pixel * width / actual_dut.column_size)
+                            nbins = int(round(nbins_per_pixel * width / actual_dut.column_size))
                             local_x_range = (center_x_local - 0.5 * width, center_x_local + 0.5 * width)
                         else:
                             # if fwhm_x_local < 0.01:
@@ -191,7 +191,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             width = max(plot_n_pixels * actual_dut.row_size, actual_dut.row_size * np.ceil(plot_n_pixels * fwhm_y_local / actual_dut.row_size))
                             if np.mod(width / actual_dut.row_size, 2) != 0:
                                 width += actual_dut.row_size
-                            nbins = int(nbins_per_pixel * width / actual_dut.row_size)
+                            nbins = int(round(nbins_per_pixel * width / actual_dut.row_size))
                             local_y_range = (center_y_local - 0.5 * width, center_y_local + 0.5 * width)
                         else:
                             # if fwhm_y_local < 0.01:
-- 
2.43.0


From 88f35a2b16911d17de80dc74798cbfdcc9095074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 40/80] fix: number of bins of the efficiency maps was one too
 small due to floating point rounding

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index ec3bc8e..87a522b 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -852,8 +852,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     dut_hist_y_size += dut_hist_y_extent_area
                 dut_hist_y_extent = [dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0]
                 hist_extent = [dut_hist_x_extent[0], dut_hist_x_extent[1], dut_hist_y_extent[0], dut_hist_y_extent[1]]
-                hist_2d_x_n_bins = int(dut_hist_x_size / resolution[0])
-                hist_2d_y_n_bins = int(dut_hist_y_size / resolution[1])
+                hist_2d_x_n_bins = int(round(dut_hist_x_size / resolution[0]))
+                hist_2d_y_n_bins = int(round(dut_hist_y_size / resolution[1]))
                 hist_2d_x_edges = np.linspace(dut_hist_x_extent[0], dut_hist_x_extent[1], hist_2d_x_n_bins + 1, endpoint=True)
                 hist_2d_y_edges = np.linspace(dut_hist_y_extent[0], dut_hist_y_extent[1], hist_2d_y_n_bins + 1, endpoint=True)
                 hist_2d_edges = [hist_2d_x_edges, hist_2d_y_edges]
@@ -913,8 +913,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # generate primitive cell of the size of a single pixel
                     dut_in_pixel_hist_x_size = math.ceil(actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
                     dut_in_pixel_hist_y_size = math.ceil(actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                    hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
-                    hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                    hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
+                    hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                     hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                     hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                     hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
@@ -1091,12 +1091,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         if np.any(in_pixel_intersection_x_local > dut_in_pixel_hist_x_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_x_size = math.ceil(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
-                            hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
+                            hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
                             hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                         if np.any(in_pixel_intersection_y_local > dut_in_pixel_hist_y_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_y_size = math.ceil(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                            hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                            hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                             hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                         if resize_in_pixel_hist:
                             hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
-- 
2.43.0


From d0afaccf83ad4560050683f7860870c27acb415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 41/80] fix: in-pixel cluster shape histogram counted clusters
 with other shapes

---
 beam_telescope_analysis/result_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 87a522b..c0a7e81 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1080,7 +1080,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1257,7 +1257,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
                                 for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
                                     cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                count_in_pixel_cluster_shape_2d_hists[region_index] += np.histogramdd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], bins=hist_in_pixel_cluster_shape_edges)[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1383,7 +1383,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From 134b800fc6eef1d46ce48a2fec96b0fcef287f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 42/80] fix: calculating efficiency failed if the first chunk
 has no valid hits or a chunk has no tracks on enabled pixels

---
 beam_telescope_analysis/result_analysis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index c0a7e81..a26d535 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -857,6 +857,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 hist_2d_x_edges = np.linspace(dut_hist_x_extent[0], dut_hist_x_extent[1], hist_2d_x_n_bins + 1, endpoint=True)
                 hist_2d_y_edges = np.linspace(dut_hist_y_extent[0], dut_hist_y_extent[1], hist_2d_y_n_bins + 1, endpoint=True)
                 hist_2d_edges = [hist_2d_x_edges, hist_2d_y_edges]
+                hist_2d_range = [dut_hist_x_extent, dut_hist_y_extent]
                 plot_range = plot_ranges[index]
                 if plot_range is None:
                     plot_range = [dut_hist_x_extent, dut_hist_y_extent]
@@ -1012,6 +1013,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1271,12 +1273,13 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
                         # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
+                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=hist_2d_range)[0]
                         # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
+                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
+                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1341,7 +1344,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
                     else:
                         # 2D tracks
-                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges, range=hist_2d_range)[0]
                         # Per chunk
                         count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
-- 
2.43.0


From 5e372a9e71149d3d5f311f6f5f15d8c2b7f1ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 43/80] fix: calculating efficiency failed if a chunk has no
 tracks or no valid hits inside an efficiency region

---
 beam_telescope_analysis/result_analysis.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index a26d535..56bcf20 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1154,6 +1154,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local > min(region[1])
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
+                            if not np.any(select_valid_tracks_efficiency_region):  # no tracks inside the region
+                                efficiency_regions_efficiencies_chunk[region_index] = 0.0
+                                continue
                             # Moving average
                             efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
                             efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
@@ -1186,21 +1189,27 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None and not np.any(select_valid_tracks_efficiency_region & select_valid_hit):
+                                pass  # wait for the first valid hit
+                            elif efficiency_regions_count_1d_total_angle_hist[region_index] is None:
                                 local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
                             else:
                                 efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None and not np.any(select_valid_tracks_efficiency_region & select_valid_hit):
+                                pass  # wait for the first valid hit
+                            elif efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
                                 local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
                             else:
                                 efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None and not np.any(select_valid_tracks_efficiency_region & select_valid_hit):
+                                pass  # wait for the first valid hit
+                            elif efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
                                 local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
-- 
2.43.0


From 371bc7fd67584259e93d723ac11d5744146941e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:38 +0000
Subject: [PATCH 44/80] fix: calculating efficiency failed if cluster files are
 given

---
 beam_telescope_analysis/result_analysis.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 56bcf20..7f77bab 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1429,25 +1429,33 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
                         count_tracks_2d_hist += count_tracks_2d_hist_tmp
-                    if in_cluster_file_h5:
+                    if in_cluster_file_h5 and np.any(select_valid_hit):
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
                         # get 1D index, and remove 1st overflow bin
-                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        binnumber = binnumber - 1
+                        # select only tracks inside the histogram
+                        select_inside = (binnumber[0] >= 0) & (binnumber[0] < hist_2d_x_n_bins) & (binnumber[1] >= 0) & (binnumber[1] < hist_2d_y_n_bins)
+                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber[:, select_inside], (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        event_numbers_clusters_ids = tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_enabled_pixel_hit][select_valid_hit][select_inside]
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
+                            if event_numbers_clusters_ids.shape[0] == 0:
+                                continue
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(event_numbers_clusters_ids, dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            # expand size of index array so that the length matches the cluster array
-                            actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            if selected_cluster_hits.shape[0] == 0:
+                                continue
+                            # get the bin for each of the cluster hits
+                            actual_bin_center_indices = tracks_with_hits_to_bin_center_index[selected_indices]
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, shape=(actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
-- 
2.43.0


From 714c1377b0764d5bd4802adc040b88d678da7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 45/80] fix: calculating efficiency failed with recent numpy
 for Voronoi regions of different length

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 1b159d3..fb4e647 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1142,7 +1142,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, [vor.regions[index] for index in new_regions_indices], vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 476b73de227a1096bb2a55c2effaa94463d247d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 46/80] fix: applying the alignment failed for files with
 recorded arguments

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..db6c1cc 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -153,7 +153,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     # Looper over the hits of all DUTs of all hit tables in chunks and apply the alignment
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-            for node in in_file_h5.root:  # Loop over potential hit tables in data file
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Table'):  # Loop over potential hit tables in data file
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From d74d2dda3f60f6b32c97fdc63c5df20294ed4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 47/80] fix: track offset and slope were transformed twice when
 applying the alignment to more than ten DUTs

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index db6c1cc..f17ec2e 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From 0f38d8d5beb09bf736d24c5dbf1737a2e4338c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 48/80] fix: global track angles had the wrong sign for flipped
 DUTs

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 7f77bab..977c7c6 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2560,8 +2560,8 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
 
 
 def get_angles(slopes, xz_plane_normal, yz_plane_normal, dut_plane_normal):
-    # Make z-slope pointing into positive z-direction (z-slope is reveresed when going from local into global coord. system) and normalize track slopes to 1.
-    slopes[:, 2] = np.abs(slopes[:, 2])
+    # Make slopes pointing into positive z-direction (slopes are reversed when going from local into global coord. system for flipped DUTs) and normalize track slopes to 1.
+    slopes = np.where(slopes[:, 2:] < 0.0, -slopes, slopes)
     slopes_mag = np.sqrt(np.einsum('ij,ij->i', slopes, slopes))
     slopes /= slopes_mag[:, np.newaxis]
     track_slopes_onto_xz_plane = slopes - np.matmul(xz_plane_normal, slopes.T).reshape(-1, 1) * xz_plane_normal
-- 
2.43.0


From 129f44f651299b159e8b17a1133949014f6c4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 49/80] fix: storing arguments failed for values with non-ASCII
 characters

---
 beam_telescope_analysis/tools/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2014297..93ced5f 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -47,8 +47,8 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         scan_param_table = h5_file.create_table(where=configuration_group, name=table_name, description=NameValue, title=table_name)
         row_scan_param = scan_param_table.row
         for key, value in dictionary.items():
-            row_scan_param['name'] = key
-            row_scan_param['value'] = str(value)
+            row_scan_param['name'] = key.encode('utf-8')
+            row_scan_param['value'] = str(value).encode('utf-8')
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From a308202a1c8f979daa8e735854bfb9a7d683998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 50/80] fix: stored values of long arguments were truncated

---
 beam_telescope_analysis/tools/storage_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 93ced5f..ae0534c 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -44,11 +44,15 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         except tb.NodeError:
             configuration_group = h5_file.get_node(where=h5_file.root, name=group_name)
 
-        scan_param_table = h5_file.create_table(where=configuration_group, name=table_name, description=NameValue, title=table_name)
+        values = [str(value).encode('utf-8') for value in dictionary.values()]
+        description = dict(NameValue.columns)
+        # do not truncate long values
+        description['value'] = tb.StringCol(max([description['value'].itemsize] + [len(value) for value in values]), pos=1)
+        scan_param_table = h5_file.create_table(where=configuration_group, name=table_name, description=description, title=table_name)
         row_scan_param = scan_param_table.row
-        for key, value in dictionary.items():
+        for key, value in zip(dictionary.keys(), values):
             row_scan_param['name'] = key.encode('utf-8')
-            row_scan_param['value'] = str(value).encode('utf-8')
+            row_scan_param['value'] = value
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From 472f0522919718ae5a1a93b5412962ae63a26eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 51/80] fix: stored arrays of arguments were abbreviated

---
 beam_telescope_analysis/tools/storage_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index ae0534c..2beefd5 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -1,8 +1,10 @@
 import logging
+import sys
 import time
 import os
 from functools import wraps
 
+import numpy as np
 import tables as tb
 
 from beam_telescope_analysis import __version__ as bta_version
@@ -44,7 +46,8 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         except tb.NodeError:
             configuration_group = h5_file.get_node(where=h5_file.root, name=group_name)
 
-        values = [str(value).encode('utf-8') for value in dictionary.values()]
+        with np.printoptions(threshold=sys.maxsize):  # do not abbreviate arrays
+            values = [str(value).encode('utf-8') for value in dictionary.values()]
         description = dict(NameValue.columns)
         # do not truncate long values
         description['value'] = tb.StringCol(max([description['value'].itemsize] + [len(value) for value in values]), pos=1)
-- 
2.43.0


From ece3ef0b6ac88b30e187ba43c26cc2827592d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 52/80] fix: given date was not stored

---
 beam_telescope_analysis/tools/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2beefd5..dde2f8c 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -60,7 +60,7 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
         elif isinstance(date_created, time.struct_time):
-            time.asctime(date_created)
+            scan_param_table.attrs.date_created = time.asctime(date_created)
         else:
             scan_param_table.attrs.date_created = time.asctime()
         scan_param_table.attrs.bta_version = bta_version
-- 
2.43.0


From 2d2d1740d57a4c44bed7e61202cd90cd46025c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 53/80] fix: prealignment failed or limits were wrong if the
 reference DUT is not at the origin

---
 beam_telescope_analysis/dut_alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index f17ec2e..6ba50a0 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -261,7 +261,6 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 logging.info('Pre-aligning data from %s', node.name)
                 bin_size = node.attrs.resolution
                 ref_hist_extent = node.attrs.ref_hist_extent
-                ref_hist_size = (ref_hist_extent[1] - ref_hist_extent[0])
                 dut_hist_extent = node.attrs.dut_hist_extent
                 dut_hist_size = (dut_hist_extent[1] - dut_hist_extent[0])
 
@@ -311,7 +310,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 # find loactions where the max. correlation is close to expected value
                 x_list = find_inliers(
                     x=dut_pos[max_select != 0],
-                    y=(max_select[max_select != 0] * bin_size - ref_hist_size / 2.0 + bin_size / 2.0),
+                    y=(max_select[max_select != 0] * bin_size + ref_hist_extent[0] + bin_size / 2.0),
                     m=slope,
                     c=offset_plot,
                     threshold=pixel_size * np.sqrt(12) * 2)
-- 
2.43.0


From 255021b930046b0a90b94e30158f29b858135a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 54/80] fix: limits from prealignment were wrong for
 correlation bins larger than the pixels

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 6ba50a0..b4370ae 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -313,7 +313,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                     y=(max_select[max_select != 0] * bin_size + ref_hist_extent[0] + bin_size / 2.0),
                     m=slope,
                     c=offset_plot,
-                    threshold=pixel_size * np.sqrt(12) * 2)
+                    threshold=max(pixel_size * np.sqrt(12) * 2, 2 * bin_size))  # bins may be larger than the pixels
                 # 1-dimensional clustering of calculated locations
                 kernel = scipy.stats.gaussian_kde(x_list)
                 densities = kernel(dut_pos)
-- 
2.43.0


From 5d398aa9b21bbbcd5ac374442cc53986455b9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 55/80] fix: alignment failed for the default of select_duts
 and for lists of different length

---
 beam_telescope_analysis/dut_alignment.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index b4370ae..9e471c9 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -641,8 +641,6 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -663,7 +661,9 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
             raise ValueError("Item in parameter select_duts has length 0.")
 
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    all_select_duts = set(np.unique(np.hstack(select_duts)).tolist())
+    logging.info('=== Alignment of %d DUTs ===' % len(all_select_duts))
+    non_select_duts = set(range(n_duts)) - all_select_duts
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1008,8 +1008,6 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -1030,7 +1028,9 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
             raise ValueError("Item in parameter select_duts has length 0.")
 
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    all_select_duts = set(np.unique(np.hstack(select_duts)).tolist())
+    logging.info('=== Alignment of %d DUTs ===' % len(all_select_duts))
+    non_select_duts = set(range(n_duts)) - all_select_duts
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
-- 
2.43.0


From ec98294f39dddb29710da96b7651230b36e1b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 56/80] fix: alignment failed for infinite quality distances

The distances that were calculated here have never been used.
---
 beam_telescope_analysis/dut_alignment.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 9e471c9..503af86 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1194,15 +1194,6 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         # reqire hits in each DUT that will be aligned
         actual_hit_duts = [list(set(select_hit_duts) | set([dut_index])) for dut_index in actual_align_duts]
         actual_quality_duts = actual_hit_duts
-        fit_quality_distances = np.zeros_like(quality_distances)
-        for index, item in enumerate(quality_distances):
-            if index in align_duts:
-                fit_quality_distances[index, 0] = np.linspace(item[0] * 1.08447**max_iterations, item[0], max_iterations)[iteration_step]
-                fit_quality_distances[index, 1] = np.linspace(item[1] * 1.08447**max_iterations, item[1], max_iterations)[iteration_step]
-            else:
-                fit_quality_distances[index, 0] = item[0]
-                fit_quality_distances[index, 1] = item[1]
-        fit_quality_distances = fit_quality_distances.tolist()
         if iteration_step > 0:
             logging.info('= Alignment step 1 - iteration %d: Finding tracks for %d DUTs =', iteration_step, len(align_duts))
             # remove temporary file
-- 
2.43.0


From cab3214cf655dfb7895a859b08e368b9a18a66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 57/80] fix: alignment changed the given lists of parameters

---
 beam_telescope_analysis/dut_alignment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 503af86..bf57763 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -678,6 +678,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     # Finally check length of all arrays
     if len(alignment_parameters) != len(select_duts):  # empty iterable
         raise ValueError("Parameter alignment_parameters has the wrong length.")
+    alignment_parameters = list(alignment_parameters)  # do not change the given list
     for index, alignment_parameter in enumerate(alignment_parameters):
         if alignment_parameter is None:
             alignment_parameters[index] = [None] * len(select_duts[index])
@@ -742,6 +743,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         raise ValueError("Parameter track_chi2 has the wrong length.")
     # expand dimensions
     # Check iterable and length for each item
+    track_chi2 = list(track_chi2)  # do not change the given list
     for index, chi2 in enumerate(track_chi2):
         # Check if non-iterable
         if not isinstance(chi2, Iterable):
@@ -773,6 +775,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         raise ValueError("Parameter cluster_shapes has the wrong length.")
     # expand dimensions
     # Check iterable and length for each item
+    cluster_shapes = list(cluster_shapes)  # do not change the given list
     for index, shapes in enumerate(cluster_shapes):
         # Check if only non-iterable in iterable
         if shapes is None:
@@ -1236,9 +1239,7 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         output_selected_tracks_file = os.path.splitext(merged_file)[0] + '_tracks_aligned_selected_tracks_duts_%s_tmp_%d.h5' % (alignment_duts, iteration_step)
         # generate query for select_tracks
         # generate default selection of cluster shapes: 1x1, 2x1, 1x2, 3-pixel cluster, 4-pixel cluster
-        for index, shapes in enumerate(cluster_shapes):
-            if shapes is None:
-                cluster_shapes[index] = default_cluster_shapes
+        cluster_shapes = [default_cluster_shapes if shapes is None else shapes for shapes in cluster_shapes]
         query_string = [((('(track_chi_red < %f)' % track_chi2[index]) if track_chi2[index] else '') + (' & ' if (track_chi2[index] and cluster_shapes[index]) else '') + (('(' + ' | '.join([('(cluster_shape_dut_{0} == %d)' % cluster_shape) for cluster_shape in cluster_shapes[index]]).format(dut_index) + ')') if cluster_shapes[index] else '')) for index, dut_index in enumerate(actual_align_duts)]
         data_selection.select_tracks(
             telescope_configuration=output_telescope_configuration,
@@ -1738,6 +1739,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
         select_alignment_parameters = [default_alignment_parameters] * len(select_duts)
     if len(select_duts) != len(select_alignment_parameters):
         raise ValueError("Parameter select_alignment_parameters has the wrong length.")
+    select_alignment_parameters = list(select_alignment_parameters)  # do not change the given list
     for index, actual_alignment_parameters in enumerate(select_alignment_parameters):
         if actual_alignment_parameters is None:
             select_alignment_parameters[index] = default_alignment_parameters
-- 
2.43.0


From 94276e844b9a95a98838f3a5b1e899c4bfdca117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 58/80] fix: angles from alignment were calculated from the
 last chunk only

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index bf57763..2979bbc 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1961,7 +1961,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From c635a48c5f02449511fcad3fd8561958cccb914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 59/80] fix: Kalman alignment failed for a single limit on the
 track chi2

---
 beam_telescope_analysis/dut_alignment.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 2979bbc..1b234c5 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1116,6 +1116,13 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     if len(max_tracks) != len(select_duts):
         raise ValueError("Parameter max_tracks has the wrong length.")
 
+    # Create chi2 array
+    if not isinstance(track_chi2, Iterable):
+        track_chi2 = [track_chi2] * len(select_duts)
+    # Finally check length
+    if len(track_chi2) != len(select_duts):
+        raise ValueError("Parameter track_chi2 has the wrong length.")
+
     if output_telescope_configuration is None:
         if 'prealigned' in telescope_configuration:
             output_telescope_configuration = telescope_configuration.replace('prealigned', 'aligned_kalman')
@@ -1532,7 +1539,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
                 chi2s_probs[track_index] = chi2s_prob
 
                 # Data quality check I: Check chi2 of track
-                if chi2s_red > track_chi2:
+                if track_chi2 and chi2s_red > track_chi2:
                     continue
 
                 # Actual track states
-- 
2.43.0


From f358fc70044669df8b5fc77383b3f193c3b30917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 60/80] fix: Kalman alignment used the alignment parameters of
 another DUT if not all DUTs are selected

---
 beam_telescope_analysis/dut_alignment.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 1b234c5..b4e3553 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1997,17 +1997,21 @@ def _calculate_initial_alignment(telescope, select_duts, select_telescope_duts,
 
         # Errors on initial alignment parameters
         if dut_index in select_duts:
-            if 'translation_x' in alignment_parameters[dut_index]:
+            # alignment parameters are given in the order of the selected DUTs
+            actual_alignment_parameters = alignment_parameters[list(select_duts).index(dut_index)]
+            if actual_alignment_parameters is None:
+                actual_alignment_parameters = default_alignment_parameters
+            if 'translation_x' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 0, 0] = np.square(alignment_parameters_errors[0])
-            if 'translation_y' in alignment_parameters[dut_index]:
+            if 'translation_y' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 1, 1] = np.square(alignment_parameters_errors[1])
-            if 'translation_z' in alignment_parameters[dut_index]:
+            if 'translation_z' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 2, 2] = np.square(alignment_parameters_errors[2])
-            if 'rotation_alpha' in alignment_parameters[dut_index]:
+            if 'rotation_alpha' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 3, 3] = np.square(alignment_parameters_errors[3])
-            if 'rotation_beta' in alignment_parameters[dut_index]:
+            if 'rotation_beta' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 4, 4] = np.square(alignment_parameters_errors[4])
-            if 'rotation_gamma' in alignment_parameters[dut_index]:
+            if 'rotation_gamma' in actual_alignment_parameters:
                 actual_align_cov[dut_index, 5, 5] = np.square(alignment_parameters_errors[5])
 
     # Fix first and last telescope plane (only rotation_gamma is not fixed).
-- 
2.43.0


From be17eb9d0329e12e82b4caa3ee7b38ff04621e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 61/80] fix: alignment was biased if not all alignment
 parameters are selected

The parameters that are not selected took part in the minimization,
and the change of the others was only correct in combination with them.
---
 beam_telescope_analysis/dut_alignment.py | 28 +++++++++---------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index b4e3553..ca708ac 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1900,28 +1900,20 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                     #     else:
                     #         tot_matr = np.vstack([tot_matr, matr])
 
+                    # Some alignment parameters can be fixed to initial values
+                    # If parameter is not in list, it is not part of the system of equations
+                    # and the infinitesimal change is zero
+                    # Note: An impact on the rotation parameters cannot be completely
+                    #       avoided because of the orthogonalization of the rotation matrix
+                    select_columns = np.array([alignment_parameter in select_alignment_parameters[index] for alignment_parameter in ('rotation_alpha', 'rotation_beta', 'rotation_gamma', 'translation_x', 'translation_y', 'translation_z')])
+
                     # SVD
-                    u, s, v = np.linalg.svd(tot_matr, full_matrices=False)
+                    u, s, v = np.linalg.svd(tot_matr[:, select_columns], full_matrices=False)
 
                     diag = np.diag(s ** -1)
                     tot_matr_inv = np.dot(v.T, np.dot(diag, u.T))
-                    omega_b_dot = np.dot(tot_matr_inv, -lin_alpha * tot_b)
-                    # Some alignment parameters can be fixed to initial values
-                    # If parameter is not in list, set infinitesimal change to zero
-                    # Note: An impact on the rotation parameters cannot be completely
-                    #       avoided because of the orthogonalization of the rotation matrix
-                    if 'translation_x' not in select_alignment_parameters[index]:
-                        omega_b_dot[3] = 0.0
-                    if 'translation_y' not in select_alignment_parameters[index]:
-                        omega_b_dot[4] = 0.0
-                    if 'translation_z' not in select_alignment_parameters[index]:
-                        omega_b_dot[5] = 0.0
-                    if 'rotation_alpha' not in select_alignment_parameters[index]:
-                        omega_b_dot[0] = 0.0
-                    if 'rotation_beta' not in select_alignment_parameters[index]:
-                        omega_b_dot[1] = 0.0
-                    if 'rotation_gamma' not in select_alignment_parameters[index]:
-                        omega_b_dot[2] = 0.0
+                    omega_b_dot = np.zeros(6, dtype=np.float64)
+                    omega_b_dot[select_columns] = np.dot(tot_matr_inv, -lin_alpha * tot_b)
 
                     translation_old2 = translation_old
                     rotation_old2 = rotation_old
-- 
2.43.0


From ddaa4c3f33f34e11680ad3921251e7501a8fea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 62/80] fix: simulated beam had the width in x also in y

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 978f60a..4c99496 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -527,7 +527,7 @@ class SimulateData(object):
             track_positions_x = np.repeat(self.beam_position[0], repeats=n_tracks)  # Constant x = mean_x
 
         if self.beam_position_sigma[1] != 0:
-            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[0], n_tracks)
+            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
 
         else:
             track_positions_y = np.repeat(self.beam_position[1], repeats=n_tracks)  # Constant y = mean_y
-- 
2.43.0


From 68f060c12b9978238b4516bfaf3d2fa943e071c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 63/80] fix: too many events were simulated if the number of
 events is not a multiple of the chunk size

---
 beam_telescope_analysis/tools/simulate_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 4c99496..d88132c 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -480,9 +480,9 @@ class SimulateData(object):
         else:
             show_progress = False
         # Fill output files in chunks
-        for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
+        for start_event_number in range(0, n_events, chunk_size):
             actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+                start_event_number=start_event_number, n_events=min(chunk_size, n_events - start_event_number))
             for dut_index in range(self._n_duts):
                 actual_dut_events, actual_dut_hits = actual_events[
                     dut_index], actual_digitized_hits[dut_index]
-- 
2.43.0


From 051788d4f8c76ae6b157a284fa2e199b29263231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 64/80] fix: no hits were simulated in the last column and row
 with charge sharing

---
 beam_telescope_analysis/tools/simulate_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index d88132c..63f399d 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -144,7 +144,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
     # FIXME: Charges are distributed along a track and not in the center z
     position_z = thickness / 2
     # Calc charge in pixels in + column direction
-    for actual_column in range(int(column), max_column):
+    for actual_column in range(int(column), max_column + 1):
         # Omit row loop if charge fraction is already too low for seed row (=0)
         if (total_fraction >= 1. - min_fraction or
             _calc_charge_fraction(
@@ -160,7 +160,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
@@ -233,7 +233,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
-- 
2.43.0


From 1ae76b6af3e7348104ee59fd9911c24398526ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 65/80] fix: correction factor for the charge cloud had no
 effect on simulated charge sharing

---
 beam_telescope_analysis/tools/simulate_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 63f399d..85c0df8 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -294,7 +294,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
 
 
 @njit()
-def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias):
+def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias, digitization_sigma_cc):
     ''' Add additional hits to seed hits due to charge sharing.
     '''
 
@@ -317,7 +317,7 @@ def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thicknes
             pixel_size_y=pixel_size_y,
             temperature=temperature,
             bias=bias,
-            digitization_sigma_cc=1.,
+            digitization_sigma_cc=digitization_sigma_cc,
             result_hits=result_hits,
             index=index)
 
@@ -743,7 +743,8 @@ class SimulateData(object):
                         pixel_size_x=self.dut_pixel_size[dut_index][0],
                         pixel_size_y=self.dut_pixel_size[dut_index][1],
                         temperature=self.temperature,
-                        bias=self.dut_bias[dut_index])
+                        bias=self.dut_bias[dut_index],
+                        digitization_sigma_cc=self.digitization_sigma_cc)
                     actual_event_number = np.repeat(actual_event_number, n_hits_per_event)
 
                 # Delete hits outside of the DUT
-- 
2.43.0


From e68abf764362e76df766036a3f2fe498539b538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 66/80] fix: average number of simulated tracks per event was
 too small

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 85c0df8..24ad75e 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -796,7 +796,7 @@ class SimulateData(object):
     def _create_data(self, start_event_number=0, n_events=10000):
         # Calculate the number of tracks per event
         if self.tracks_per_event_sigma > 0:
-            n_tracks_per_event = np.random.normal(self.tracks_per_event, self.tracks_per_event_sigma, n_events).astype(np.int32)
+            n_tracks_per_event = np.rint(np.random.normal(self.tracks_per_event, self.tracks_per_event_sigma, n_events)).astype(np.int32)
         else:
             n_tracks_per_event = np.ones(n_events, dtype=np.int32) * self.tracks_per_event
         # One cannot have less than 0 tracks per event, this will be triggered
-- 
2.43.0


From 3e1148c937d1d9a9800fcb1d8a5447f9a304e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 67/80] fix: simulation failed after increasing the number of
 DUTs

---
 beam_telescope_analysis/tools/simulate_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 24ad75e..c0fd1cb 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -378,6 +378,7 @@ class SimulateData(object):
         if value > self._n_duts:
             logging.warning(
                 'Number of DUTs increased, reset to standard settings!')
+            self._n_duts = value
             self.set_std_settings()
         self._n_duts = value
 
-- 
2.43.0


From 8e767cb20976d0e4039a8eeefa00cffb685b1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 68/80] fix: lists given as arguments were changed by
 fit_tracks, align and calculate_efficiency

---
 beam_telescope_analysis/dut_alignment.py   | 2 ++
 beam_telescope_analysis/result_analysis.py | 1 +
 beam_telescope_analysis/track_analysis.py  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index ca708ac..52462a9 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1336,6 +1336,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_fit_duts)):
         select_fit_duts = [select_fit_duts[:] for _ in select_duts]
     # if None use all DUTs
+    select_fit_duts = list(select_fit_duts)  # do not change the given list
     for index, item in enumerate(select_fit_duts):
         if item is None:
             select_fit_duts[index] = list(range(n_duts))
@@ -1362,6 +1363,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_hit_duts)):
         select_hit_duts = [select_hit_duts[:] for _ in select_duts]
     # If None, require no hit
+    select_hit_duts = list(select_hit_duts)  # do not change the given list
     for index, item in enumerate(select_hit_duts):
         if item is None:
             select_hit_duts[index] = []
diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 977c7c6..416fd94 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -762,6 +762,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
     # Finally check length of all arrays
     if len(efficiency_region_names) != len(select_duts):  # empty iterable
         raise ValueError("Parameter efficiency_region_names has the wrong length.")
+    efficiency_region_names = list(efficiency_region_names)  # do not change the given list
     # Finally check length of all arrays
     for index, (region_name, regions) in enumerate(zip(efficiency_region_names, efficiency_regions)):
         if regions and region_name is None:
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 55a6f62..ef7de55 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -673,6 +673,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_fit_duts)):
         select_fit_duts = [select_fit_duts[:] for _ in select_duts]
     # if None use all DUTs
+    select_fit_duts = list(select_fit_duts)  # do not change the given list
     for index, item in enumerate(select_fit_duts):
         if item is None:
             select_fit_duts[index] = list(range(n_duts))
@@ -699,6 +700,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_hit_duts)):
         select_hit_duts = [select_hit_duts[:] for _ in select_duts]
     # If None, require no hit
+    select_hit_duts = list(select_hit_duts)  # do not change the given list
     for index, item in enumerate(select_hit_duts):
         if item is None:
             select_hit_duts[index] = []
-- 
2.43.0


From 06a97e3cfeb305fbd459888c9a6986278c84a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 69/80] fix: columns of cluster tables had wrong names
 occasionally when using a single core

---
 beam_telescope_analysis/hit_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 3e87d49..f497d82 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1118,8 +1118,9 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
-        # the arrays are buffers of the clusterizer and will be overwritten by the next chunk when using a single core
-        return cluster_hits.copy(), clusters.copy()  # return hits array with additional columns for cluster ID, and cluster array
+        # the arrays are buffers of the clusterizer and will be overwritten by the next chunk when using a single core,
+        # the columns are renamed in place and therefore the data type needs to be copied as well
+        return cluster_hits.copy().view(np.dtype(cluster_hits.dtype.descr)), clusters.copy().view(np.dtype(clusters.dtype.descr))  # return hits array with additional columns for cluster ID, and cluster array
 
     smc.SMC(
         input_filename=input_hit_file,
-- 
2.43.0


From 540958a3c488321cd352c559d1b61d5819e53bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 70/80] fix: extrapolation during track finding used sensor
 planes in a different coordinate system than the hits

---
 beam_telescope_analysis/track_analysis.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index ef7de55..e25100b 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -258,13 +258,31 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                     x_global.append(x_global_dut)
                     y_global.append(y_global_dut)
                     z_global.append(z_global_dut)
-                    translation.append([dut.translation_x, dut.translation_y, dut.translation_z])
+                    dut_translation = np.array([dut.translation_x, dut.translation_y, dut.translation_z], dtype=np.float64)
                     dut_rotation_matrix = geometry_utils.rotation_matrix(
                         alpha=dut.rotation_alpha,
                         beta=dut.rotation_beta,
                         gamma=dut.rotation_gamma)
                     basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
                     dut_normal = basis_global[2]
+                    if align_to_beam:
+                        # the plane of the DUT has to be given in the same coordinate system as the hits
+                        dut_translation = np.column_stack(dut.local_to_global_position(
+                            x=dut_translation[[0]],
+                            y=dut_translation[[1]],
+                            z=dut_translation[[2]],
+                            translation_x=telescope.translation_x,
+                            translation_y=telescope.translation_y,
+                            translation_z=telescope.translation_z,
+                            rotation_alpha=telescope.rotation_alpha,
+                            rotation_beta=telescope.rotation_beta,
+                            rotation_gamma=telescope.rotation_gamma))[0]
+                        telescope_rotation_matrix = geometry_utils.rotation_matrix(
+                            alpha=telescope.rotation_alpha,
+                            beta=telescope.rotation_beta,
+                            gamma=telescope.rotation_gamma)
+                        dut_normal = telescope_rotation_matrix.T.dot(dut_normal)
+                    translation.append(dut_translation)
                     dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
                     if dut_normal[2] < 0:
                         dut_normal = -dut_normal
-- 
2.43.0


From dd21d256ca97775cee5bb58b5ac9b029866e24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 71/80] fix: alignment of a sensor diverged when there are too
 few tracks in a chunk

---
 beam_telescope_analysis/dut_alignment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 52462a9..739a1eb 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1912,7 +1912,11 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                     # SVD
                     u, s, v = np.linalg.svd(tot_matr[:, select_columns], full_matrices=False)
 
-                    diag = np.diag(s ** -1)
+                    # directions that are not determined by the tracks (e.g., very few tracks in a chunk) are kept
+                    determined = s > 1e-12 * np.max(s, initial=0.0)
+                    s_inv = np.zeros_like(s)
+                    s_inv[determined] = s[determined] ** -1
+                    diag = np.diag(s_inv)
                     tot_matr_inv = np.dot(v.T, np.dot(diag, u.T))
                     omega_b_dot = np.zeros(6, dtype=np.float64)
                     omega_b_dot[select_columns] = np.dot(tot_matr_inv, -lin_alpha * tot_b)
-- 
2.43.0


From dbedf305d4654a1abe3d8f33b586f3ec5a58c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 72/80] fix: sensor planes were inclined in the wrong direction
 during track finding in the frame of the beam

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index e25100b..801d4c4 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -281,7 +281,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                             alpha=telescope.rotation_alpha,
                             beta=telescope.rotation_beta,
                             gamma=telescope.rotation_gamma)
-                        dut_normal = telescope_rotation_matrix.T.dot(dut_normal)
+                        dut_normal = telescope_rotation_matrix.dot(dut_normal)
                     translation.append(dut_translation)
                     dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
                     if dut_normal[2] < 0:
-- 
2.43.0


From ffa4e04728abb68fd5525cb747fed2f0fa950957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 73/80] fix: a tiny negative azimuth angle is mapped to 0
 instead of 2 pi

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index baaefc8..cca8c1f 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -163,6 +163,7 @@ def cartesian_to_spherical(x, y, z):
     sel = (x != 0) | (y != 0)
     phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    phi[phi >= 2. * np.pi] = 0.  # tiny negative angles are rounded to 2 pi
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
 
-- 
2.43.0


From a7348f4d8e0a9029fcfd0b7b7cf01fd57c890963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 74/80] fix: the simulation redraws polar angles beyond pi in
 rad instead of mrad

---
 beam_telescope_analysis/tools/simulate_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index c0fd1cb..1b13346 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -542,12 +542,12 @@ class SimulateData(object):
         iterations = 0
         while(np.any(track_angles_theta > np.pi) or np.any(track_angles_theta < 0)):
             track_angles_theta[track_angles_theta > np.pi] = np.random.normal(
-                self.beam_angle,
-                self.beam_angle_sigma,
+                self.beam_angle / 1000.,
+                self.beam_angle_sigma / 1000.,
                 size=track_angles_theta[track_angles_theta > np.pi].shape[0])
             track_angles_theta[track_angles_theta < 0] = np.random.normal(
-                self.beam_angle,
-                self.beam_angle_sigma,
+                self.beam_angle / 1000.,
+                self.beam_angle_sigma / 1000.,
                 size=track_angles_theta[track_angles_theta < 0].shape[0])
             iterations += 1
             if iterations > 1000:
-- 
2.43.0


From 2408da59afa92ad435f0d2b5f7e07113a4cff66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 75/80] fix: the simple peak search accepts a distribution that
 does not fall below half of its maximum at the border

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index fb4e647..4c5a84b 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -841,7 +841,7 @@ def simple_peak_detect(x, y):
     half_maximum = np.max(y) * 0.5
     greater = (y > half_maximum)
     change_indices = np.where(greater[:-1] != greater[1:])[0]
-    if not np.any(greater) or greater[0] is True or greater[-1] is True:
+    if not np.any(greater) or greater[0] or greater[-1]:
         raise RuntimeError("Cannot determine peak")
     x = np.array(x)
     # get center of indices for higher precision peak position and FWHM
-- 
2.43.0


From 2ef47bdeac8a24318d8090efae9bfe27e35bb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 76/80] fix: calculate_purity always fails (missing telescope
 for the plots, arguments of the log message)

---
 beam_telescope_analysis/result_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 416fd94..8cfb656 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2245,6 +2245,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     raise RuntimeError('No pure hit for DUT%d, consider changing cut values or check track building!', actual_dut_index)
 
                 plot_utils.purity_plots(
+                    telescope,
                     total_pure_hit_hist,
                     total_hit_hist, purity,
                     purity_sensor,
@@ -2254,7 +2255,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-                logging.info('Purity =  %1.4f +- %1.4f%%' % np.ma.mean(purity), np.ma.std(purity))
+                logging.info('Purity =  %1.4f +- %1.4f%%' % (np.ma.mean(purity), np.ma.std(purity)))
                 purities.append(np.ma.mean(purity))
                 purities_sensor_mean.append(np.ma.mean(purity_sensor))
 
-- 
2.43.0


From 285dd349de630ac8a115951d7b4ca9f4e581ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 77/80] fix: the purity of a bin is truncated to an integer
 percentage

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 8cfb656..c25418f 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2235,7 +2235,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
-                purity = np.zeros_like(total_hit_hist)
+                purity = np.zeros_like(total_hit_hist, dtype=np.float64)
                 purity[total_hit_hist != 0] = total_pure_hit_hist[total_hit_hist != 0].astype(np.float64) / total_hit_hist[total_hit_hist != 0].astype(np.float64) * 100.0
                 purity = np.ma.array(purity, mask=total_hit_hist < minimum_hit_density)
                 # calculate sensor purity by weighting each pixel purity with total number of hits within the pixel
-- 
2.43.0


From f1716042bf3db1b0010e9fbba99a6149fb282776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:54 +0000
Subject: [PATCH 78/80] fix: calculate_efficiency always fails with plots
 (np.int, sizes of rectangles given as arrays)

---
 beam_telescope_analysis/tools/plot_utils.py | 62 ++++++++++-----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index db9e88d..3c23f87 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1318,7 +1318,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     ax = fig.add_subplot(111)
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color='r')
     _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=1.0, line_color=mesh_color, point_size=mesh_point_size, point_alpha=1.0, point_color=mesh_color)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1333,7 +1333,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_hits_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_hits_2d_hist_masked.T, hist_extent, title='Hit density\nfor %s\n(%d Hits)' % (actual_dut.name, n_hits), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1345,7 +1345,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_2d_hist_masked.T, hist_extent, title='Track density\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1357,7 +1357,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_with_hit_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_with_hit_2d_hist_masked.T, hist_extent, title='Track density with associated hit\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks_with_hit), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1383,7 +1383,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         select_bins &= y_meshgrid <= max(plot_range[1])
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color, point_size=mesh_point_size, point_alpha=mesh_alpha, point_color=mesh_color)
         ax.quiver(x_meshgrid[select_bins], y_meshgrid[select_bins], np.nan_to_num(stat_2d_x_residuals_hist[select_bins]), np.nan_to_num(stat_2d_y_residuals_hist[select_bins]), angles='xy', scale_units='xy', scale=1.0, pivot='tail', minshaft=2.0, width=0.001)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_title('Residuals\nfor %s' % actual_dut.name)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
@@ -1450,7 +1450,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         effective_color_2d = color_indices[color_index_array[effective_pixels_2d]]
         effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
         plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
         ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1524,7 +1524,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             effective_color_2d = colors[color_index_array[effective_pixels_2d]]
             effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
             plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
             ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1560,7 +1560,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = hist_residuals_indices[-1] + 1
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, stat_2d_residuals_hist.T, hist_extent, title='Mean 2D residuals\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1582,7 +1582,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     z_max = hist_charge_indices[-1] + 1
     plot_2d_pixel_hist(fig, ax, stat_2d_charge_hist.T, hist_extent, title='Mean charge\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1619,7 +1619,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_frame_hist.max()
     z_min = stat_2d_frame_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_frame_hist.T, hist_extent, title='Mean frame\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1642,7 +1642,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     cbar.set_ticklabels(['1', '2', '3', '4'])
     cbar.set_label("cluster size")
     # cbar.ax.tick_params(length=0)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1669,7 +1669,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_total_angle_hist.max()
     z_min = stat_2d_total_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_total_angle_hist.T, hist_extent, title='Mean total track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1696,7 +1696,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_alpha_angle_hist.max()
     z_min = stat_2d_alpha_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_alpha_angle_hist.T, hist_extent, title='Mean alpha track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1723,7 +1723,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_beta_angle_hist.max()
     z_min = stat_2d_beta_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_beta_angle_hist.T, hist_extent, title='Mean beta track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1736,7 +1736,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1748,7 +1748,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1802,7 +1802,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         # # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
         # z_min = 0.0
         # plot_2d_pixel_hist(fig, ax, pixel_efficiencies_bins.T, hist_extent, title='Efficiency per pixel\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
-        # rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        # rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         # ax.add_patch(rect)
         # ax.set_xlim(plot_range[0])
         # ax.set_ylim(plot_range[1])
@@ -1889,7 +1889,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1900,7 +1900,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1913,7 +1913,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1925,7 +1925,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
             _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1946,7 +1946,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 z_min = 0.0
                 plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Region %d%s: Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
                 region = efficiency_regions[region_index]
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1957,7 +1957,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 ax.set_xlim(plot_range[0])
                 ax.set_ylim(plot_range[1])
@@ -2279,10 +2279,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
@@ -2316,10 +2316,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
-- 
2.43.0


From 587292fb22f66b7dfd7132aec76a8b7a1c4fe7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 79/80] fix: plots of the efficiency change the angle edges of
 the regions that are written to the output file

---
 beam_telescope_analysis/tools/plot_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 3c23f87..fb8f305 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2064,8 +2064,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_total_angle_hist_edges[region_index] = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_total_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_total_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_total_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_total_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2078,8 +2078,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_alpha_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_alpha_angle_hist[region_index]).astype(np.float32), align='center', width=width)
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2092,8 +2092,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_beta_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_beta_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_beta_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_beta_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
-- 
2.43.0


From 501928158d2667b998dc06f77cee78be2554f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 80/80] fix: calculate_efficiency with plots fails when all
 mean values of a map are 0 (colorbar without range)

---
 beam_telescope_analysis/tools/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index fb8f305..8b6311b 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -97,6 +97,8 @@ def plot_2d_pixel_hist(fig, ax, hist2d, plot_range, title=None, x_axis_title=Non
     # Check if z_max and z_min are not the same (since this causes plotting error)
     if z_max == z_min:
         z_min = 0.0
+        if z_max == 0.0:
+            z_max = 1.0
     im = ax.imshow(hist2d, interpolation='none', origin='lower', aspect=aspect, extent=plot_range, cmap=cmap, clim=(z_min, z_max))
     if plot_projection:  # Plot projection on top of axes
         # Calculate slices
-- 
2.43.0

