From 1b4edba578ff6dadaf74755f5ded82534d75a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 01/33] fix: prepare HH/HT files under their locks and create
 them atomically

Parallel workers checked and created the same files without a lock: a late
creator wiped contributions already written, and a reader could meet a
half-created file. A process killed while creating left a broken file behind.
---
 hpelm/modules/hdf5_tools.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..22abf2a 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -18,7 +18,26 @@ import fasteners  # inter-process file lock
 
 
 def _prepare_fHH(fHH, fHT, nnet, precision):
-    """Prepares files for fHH, fHT if they are needed.
+    """Prepares files for fHH, fHT if they are needed, multi-process safe with lock files.
+
+    Checking and creating a file happens under the same lock as writing to it, because other processes
+    may be doing the same right now.
+    """
+    if (fHH is None) or (fHT is None):
+        return
+    with fasteners.InterProcessLock(fHH + ".lock"), fasteners.InterProcessLock(fHT + ".lock"):
+        _prepare_fHH_locked(fHH, fHT, nnet, precision)
+
+
+def _create_hdf5(data, h5file, precision):
+    """Creates a whole HDF5 file at once, so that an interrupted creation does not leave a broken file.
+    """
+    make_hdf5(data, h5file + ".tmp", precision)
+    os.replace(h5file + ".tmp", h5file)
+
+
+def _prepare_fHH_locked(fHH, fHT, nnet, precision):
+    """Checks or creates files for fHH, fHT; run it under locks.
 
     Args:
         fHH (string): hdf5 filename to store HH, None for ignore disk storage
@@ -49,7 +68,7 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+            _create_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
 
         # process fHT
         if os.path.isfile(fHT):
@@ -66,7 +85,7 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5((L, outputs), fHT, precision)
+            _create_hdf5((L, outputs), fHT, precision)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 83b545f8217bef983d20a783b44219e1f6b652e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 02/33] fix: do not subtract norm from the in-memory HH when
 storing to disk

get_corr() of the basic solver returns the live matrix.
---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..1453d4d 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,6 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # do not change data of the model
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
@@ -553,6 +554,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # do not change data of the model
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
-- 
2.43.0


From 61f50eb95b43e73cfe511e382bfa9de5cba368d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 03/33] fix: project() with istart writes batches to the right
 rows

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 1453d4d..a2fbeb0 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -283,7 +283,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 570d0a11e2bb7fc442c7ddc35ed128d8a623d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 04/33] fix: save() reports errors of writing the file

The file was closed by the garbage collector, where an error of the last write
(disk full) is ignored: save() returned normally with a truncated model file.
---
 hpelm/elm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..28000da 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -397,7 +397,8 @@ class ELM(object):
         assert isinstance(fname, string_types), "Model file name must be a string"
         m = self._get_output_format()
         try:
-            cPickle.dump(m, open(fname, "wb"), -1)
+            with open(fname, "wb") as f:
+                cPickle.dump(m, f, -1)
         except IOError:
             raise IOError("Cannot create a model file at: %s" % fname)
 
@@ -436,7 +437,8 @@ class ELM(object):
         """
         assert isinstance(fname, string_types), "Model file name must be a string"
         try:
-            m = cPickle.load(open(fname, "rb"))
+            with open(fname, "rb") as f:
+                m = cPickle.load(f)
         except IOError:
             raise IOError("Model file not found: %s" % fname)
         self._update_from_output(m)
-- 
2.43.0


From 9d15c9b243d54b878e86e3d1ed4ded5072bdc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 05/33] fix: get_corr() and the SVD solution with a full HH
 matrix

A full symmetric HH, set by set_corr() or read from a file, had its lower
triangle doubled.
---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 15f069ff157f970edfd196b56c6865f0296e09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 06/33] fix: mrsr() on linearly dependent regressors with
 current Numpy

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From dc0fc67ed26d9ea235c1c03cd867a42066700ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 07/33] fix: interrupted _prune() leaves no model with wrong
 predictions

Neurons in a new order were briefly combined with the old output weights.
---
 hpelm/nnets/slfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..e9a0878 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -182,6 +182,7 @@ class SLFN(object):
     def _prune(self, idx):
         """Leave only neurons with the given indexes.
         """
+        self.B = None  # never combine new neurons with old output weights
         idx = list(idx)
         neurons = []
         for nold in self.neurons:
@@ -196,7 +197,6 @@ class SLFN(object):
         self.neurons = neurons
         # reset invalid parameters
         self.reset()
-        self.B = None
 
     def get_B(self):
         """Return B as a numpy array.
-- 
2.43.0


From efda3e4b4a00d3822cad2b62380199f7bd7c9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 08/33] fix: make_hdf5() reads text files with current Python

File mode "U" does not exist since Python 3.11.
---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 22abf2a..cb7f873 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -203,7 +203,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -230,7 +230,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From 84f7ad4f770dadb69dfeb430005044f2b0f7b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 09/33] fix: close output HDF5 files when a call fails

A file left open after an I/O error could not be opened for writing again, so
repeating the failed call in the same process failed too.
---
 hpelm/hp_elm.py             | 44 ++++++++++++++++++++++---------------
 hpelm/modules/hdf5_tools.py | 30 ++++++++++++++++---------
 2 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a2fbeb0..6a94f6c 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -206,14 +206,24 @@ class HPELM(ELM):
         # make file to store results
         if isinstance(fY, string_types):
             make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
-            h5 = open_file(fY, "a")
-            for Y in h5.walk_nodes():
-                pass  # find a node with whatever name
+            with open_file(fY, "a") as h5:
+                for Y in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                self._predict_batches(X, Y, istart, icount, nb)
+                h5.flush()
+            return
         elif fY is None:  # create Numpy array
             Y = np.zeros((icount, self.nnet.outputs), dtype=self.precision)
         else:  # fY is Numpy array
             _, Y = self._checkdata(None, fY)
 
+        self._predict_batches(X, Y, istart, icount, nb)
+        if fY is None:
+            return Y
+
+    def _predict_batches(self, X, Y, istart, icount, nb):
+        """Iteratively predict outputs for a range of X into a matrix or opened HDF5 array Y.
+        """
         t = time()
         t0 = time()
         for b in xrange(0, nb):
@@ -233,12 +243,6 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        if isinstance(fY, string_types):
-            h5.flush()
-            h5.close()
-        elif fY is None:
-            return Y
-
     def project(self, fX, fH=None, istart=0, icount=np.inf):
         """Iteratively project input data from HDF5 into HPELM hidden layer, and save in another HDF5.
 
@@ -262,9 +266,12 @@ class HPELM(ELM):
         # make file to store results
         if isinstance(fH, string_types):
             make_hdf5((icount, self.nnet.L), fH, dtype=self.precision)
-            h5 = open_file(fH, "a")
-            for H in h5.walk_nodes():
-                pass  # find a node with whatever name
+            with open_file(fH, "a") as h5:
+                for H in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                self._project_batches(X, H, istart, icount, nb)
+                h5.flush()
+            return
         elif fH is None:  # create Numpy array
             H = np.zeros((icount, self.nnet.L), dtype=self.precision)
         else:  # fY is Numpy array
@@ -272,6 +279,13 @@ class HPELM(ELM):
             assert fH.shape[1] == self.nnet.L, "Numpy matrix fH must have same number of columns as number of neurons"
             H = fH
 
+        self._project_batches(X, H, istart, icount, nb)
+        if fH is None:
+            return H
+
+    def _project_batches(self, X, H, istart, icount, nb):
+        """Iteratively project a range of X into a matrix or opened HDF5 array H.
+        """
         t = time()
         t0 = time()
         for b in xrange(0, nb):
@@ -291,12 +305,6 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        if isinstance(fH, string_types):
-            h5.flush()
-            h5.close()
-        elif fH is None:
-            return H
-
     def error(self, fT, fY, istart=0, icount=np.inf):
         """Calculate error of model predictions of HPELM.
 
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index cb7f873..ac11ab9 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -56,9 +56,9 @@ def _prepare_fHH_locked(fHH, fHT, nnet, precision):
         if os.path.isfile(fHH):
             h5 = open_file(fHH, 'r')
             node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
             try:
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
                 assert node is not None, f"Matrix in {fHH} does not exist"
                 s0 = node.shape[0]
                 msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
@@ -74,9 +74,9 @@ def _prepare_fHH_locked(fHH, fHT, nnet, precision):
         if os.path.isfile(fHT):
             h5 = open_file(fHT, 'r')
             node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
             try:
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
                 assert node is not None, f"Matrix in {fHT} does not exist"
                 msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
                 assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
@@ -94,8 +94,7 @@ def _write_fHH(fHH, fHT, HH, HT):
     Lock file has the same name as fHH,fHT, but with '.lock' extension.
     """
     fHH_lock = fHH + ".lock"
-    with fasteners.InterProcessLock(fHH_lock):
-        h5 = open_file(fHH, "a")
+    with fasteners.InterProcessLock(fHH_lock), open_file(fHH, "a") as h5:
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
@@ -104,8 +103,7 @@ def _write_fHH(fHH, fHT, HH, HT):
         h5.close()
 
     fHT_lock = fHT + ".lock"
-    with fasteners.InterProcessLock(fHT_lock):
-        h5 = open_file(fHT, "a")
+    with fasteners.InterProcessLock(fHT_lock), open_file(fHT, "a") as h5:
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         node[:] += HT
@@ -122,7 +120,13 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     :param batch: - number of rows to read at once, default is a native batch size
     """
 
-    h5 = open_file(h5file, "a")
+    with open_file(h5file, "a") as h5:
+        return _normalize_hdf5(h5, mean, std, batch)
+
+
+def _normalize_hdf5(h5, mean, std, batch):
+    """Calculates and applies normalization to data in an opened HDF5 file.
+    """
     node = None
     for node in h5.walk_nodes():
         pass  # find a node with whatever name
@@ -225,7 +229,13 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         flt = Filters(complevel=comp_level, shuffle=True)
     else:
         flt = Filters(complevel=0)
-    h5 = open_file(h5file, "w")
+    with open_file(h5file, "w") as h5:
+        _fill_hdf5(h5, data, X, fill, dtype, delimiter, skiprows, flt)
+
+
+def _fill_hdf5(h5, data, X, fill, dtype, delimiter, skiprows, flt):
+    """Writes data into a new HDF5 file.
+    """
     a = Atom.from_dtype(np.dtype(dtype), dflt=0)
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
-- 
2.43.0


From 10bfd8a1d4d90df0007a90f06801e57e0a1ff10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 10/33] fix: normalize_hdf5() applies the parameters it has
 computed

It returned the computed mean and deviation, and marked the file as normalised,
without changing the data. Also: reading the recorded parameters from a closed
file failed, negative variances gave NaN, a list of deviations was corrupted.
---
 hpelm/modules/hdf5_tools.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index ac11ab9..2200d3c 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -151,24 +151,19 @@ def _normalize_hdf5(h5, mean, std, batch):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
-            node.attrs.mean = mean
-            node.attrs.std = std
-            h5.close()
-            return mean, std
+            std = np.maximum(E_x2 - E2_x, 0)**0.5  # rounding errors can make it negative
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
-            h5.close()
             return node.attrs.mean, node.attrs.std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
-    std[std == 0] = 1  # prevent division by zero for std=0
+    std = np.where(np.asarray(std) == 0, 1, std)  # prevent division by zero for std=0
+    node.attrs.mean = mean
+    node.attrs.std = std
 
     print("applying normalization")
     for b in range(nb):
@@ -178,7 +173,6 @@ def _normalize_hdf5(h5, mean, std, batch):
         X = (X - mean) / std
         node[start: start+step] = X.astype(dt)
 
-    h5.close()  # closing file
     return mean, std
 
 
-- 
2.43.0


From e5e6a335dee7a357c453c8d1fa824d9c31daae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 11/33] fix: load() replaces the whole model, or nothing if it
 fails

With accelerator="basic" the loaded neurons were added to the existing ones. A
load that failed half-way left a mixture of two models.
---
 hpelm/elm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 28000da..5c1bd2e 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -457,17 +457,16 @@ class ELM(object):
     def _update_from_output(self, m: dict):
         inputs = m["inputs"]
         outputs = m["outputs"]
-        self.classification = m["Classification"]
-        self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        nnet = type(self.nnet)(inputs, outputs, norm=m["norm"], precision=self.precision)
         for number, func, W, B in m["neurons"]:
-            self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
-        self.nnet.norm = m["norm"]
+            nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         if m["Beta"] is not None:
-            self.nnet.set_B(np.array(m["Beta"], dtype=self.precision))
+            nnet.set_B(np.array(m["Beta"], dtype=self.precision))
+
+        # replace current model only after everything is loaded
+        self.classification, self.wc, self.nnet = m["Classification"], m["Weights_WC"], nnet
 
     def __del__(self):
         # Closes any HDF5 files opened during HPELM usage.
-- 
2.43.0


From d660381c80759d30073593a55689cf0be0c47248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 12/33] fix: structure selection uses class weights in the
 final model

The final model, and all models in cross-validation, were trained without class
weights; cross-validation without given weights failed. Batch size is used too.
---
 hpelm/mss_cv.py  | 9 +++++++--
 hpelm/mss_loo.py | 2 +-
 hpelm/mss_v.py   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..ad4486b 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -29,6 +29,11 @@ def train_cv(self, X, T, k):
     L = self.nnet.L
     c = self.nnet.outputs
 
+    # class weights are the same for all splits and the final model
+    if self.classification == "wc" and self.wc is None:
+        ns = T.sum(axis=0).astype(self.precision)
+        self.wc = ns.sum() / ns
+
     idxk = []
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
@@ -46,7 +51,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +123,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..14e8095 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..b29c31c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 178bd94814fd9aaeb113ae23ddf956ab5bc1688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 13/33] fix: weighted classification error with a class absent
 from the data

It was NaN in HPELM; ELM counts such class as having no errors.
---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 6a94f6c..b4e0ac4 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -372,7 +372,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 323c6466dc606591628b370e0c203257bd7300d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 14/33] fix: validation_corr() accepts a vector of numbers of
 neurons, as documented

---
 hpelm/hp_elm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index b4e0ac4..9f09573 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -426,8 +426,11 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        if np.ndim(steps) > 0:  # exact numbers of neurons
+            Ls = np.array(steps, dtype=int)
+        else:
+            Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.ceil(Ls).astype(int)
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From 4fcc831ea8ad0b2dc52cc53d1748a4edd9deca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 15/33] fix: weighted classification error in validation_corr()

It averaged per-class errors of separate batches, where classes have different
numbers of samples, so the error depended on the batch size.
---
 hpelm/hp_elm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 9f09573..2e653bb 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -461,6 +461,13 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        # error is not an average over batches if classes are weighted separately
+        if self.classification == "wc":
+            for i in xrange(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - confs[i].diagonal()) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From 3cd5bb1fe639c36b71dc68afc9d91d5206bcb6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 16/33] fix: validation_corr() does not report more neurons
 than there are

np.ceil of 10.000000000000002 is 11 for a network with 10 neurons.
---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 2e653bb..3965c0c 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -430,7 +430,7 @@ class HPELM(ELM):
             Ls = np.array(steps, dtype=int)
         else:
             Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-            Ls = np.ceil(Ls).astype(int)
+            Ls = np.minimum(np.ceil(Ls).astype(int), L)  # rounding errors can make it larger
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From 97789d7ab141338843df17d8f906f9e92f1f8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 17/33] fix: asyncronous calls fail if a reader or writer
 process fails

They waited forever for a dead process, or returned normally with incomplete
results if the writer failed, and left helper processes running after an error.
Results go through pipes now: a dead process at the other end is an error.
---
 hpelm/hp_elm.py             | 81 +++++++++++++++++++------------------
 hpelm/modules/__init__.py   |  1 +
 hpelm/modules/hdf5_tools.py | 56 +++++++++++++++++++++++--
 3 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 3965c0c..451a10e 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -6,11 +6,11 @@ Created on Mon Oct 27 17:48:33 2014
 """
 
 import numpy as np
-import multiprocessing as mp
 from six.moves import xrange
 from six import string_types
 from time import time
-from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .modules import make_hdf5, _prepare_fHH, _write_fHH
+from .modules import _start_ireader, _start_iwriter, _finish_helpers, _stop_helpers
 from tables import open_file
 from .elm import ELM
 
@@ -529,17 +529,27 @@ class HPELM(ELM):
         h5.close()
 
         # start async reader and writer for HDF5 files
-        qX_in = mp.Queue()
-        qX_out = mp.Queue(1)
-        readerX = mp.Process(target=_ireader, args=(fX, qX_in, qX_out))
-        readerX.daemon = True
-        readerX.start()
-        qT_in = mp.Queue()
-        qT_out = mp.Queue(1)
-        readerT = mp.Process(target=_ireader, args=(fT, qT_in, qT_out))
-        readerT.daemon = True
-        readerT.start()
+        helpers = []
+        try:
+            qX_in, qX_out = _start_ireader(fX, helpers)
+            qT_in, qT_out = _start_ireader(fT, helpers)
+            self._add_batches_async(qX_in, qX_out, qT_in, qT_out, istart, icount, nb)
+            _finish_helpers(helpers)
+        except EOFError:
+            raise IOError("Asyncronous reading of %s and %s failed" % (fX, fT))
+        finally:
+            _stop_helpers(helpers)
+
+        # if storing output to disk
+        if fHH is not None and fHT is not None:
+            HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # do not change data of the model
+            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            _write_fHH(fHH, fHT, HH, HT)
 
+    def _add_batches_async(self, qX_in, qX_out, qT_in, qT_out, istart, icount, nb):
+        """Feed batches from asyncronous readers into a model.
+        """
         # main loop over all the data
         t = time()
         t0 = time()
@@ -552,8 +562,8 @@ class HPELM(ELM):
             qT_in.put((start_next, stop_next))
 
             if b > 0:  # first iteration only prefetches data
-                Xb = qX_out.get()
-                Tb = qT_out.get()
+                Xb = qX_out.recv()
+                Tb = qT_out.recv()
                 if self.classification == "wc":
                     wc_vector = self.wc[np.where(Tb == 1)[1]]  # weights for samples in the batch
 
@@ -565,17 +575,6 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        # close async reader and writer
-        readerX.join()
-        readerT.join()
-
-        # if storing output to disk
-        if fHH is not None and fHT is not None:
-            HH, HT = self.nnet.get_corr()
-            HH = HH.copy()  # do not change data of the model
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
-            _write_fHH(fHH, fHT, HH, HT)
-
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
@@ -592,16 +591,20 @@ class HPELM(ELM):
         make_hdf5((icount, self.nnet.outputs), fY)
 
         # start async reader and writer for HDF5 files
-        qr_in = mp.Queue()
-        qr_out = mp.Queue(1)
-        reader = mp.Process(target=_ireader, args=(fX, qr_in, qr_out))
-        reader.daemon = True
-        reader.start()
-        qw_in = mp.Queue(1)
-        writer = mp.Process(target=_iwriter, args=(fY, qw_in))
-        writer.daemon = True
-        writer.start()
-
+        helpers = []
+        try:
+            qr_in, qr_out = _start_ireader(fX, helpers)
+            qw_in = _start_iwriter(fY, helpers)
+            self._predict_batches_async(qr_in, qr_out, qw_in, istart, icount, nb)
+            _finish_helpers(helpers)
+        except EOFError:
+            raise IOError("Asyncronous reading of %s failed" % fX)
+        finally:
+            _stop_helpers(helpers)
+
+    def _predict_batches_async(self, qr_in, qr_out, qw_in, istart, icount, nb):
+        """Predict batches from an asyncronous reader, and send results to an asyncronous writer.
+        """
         t = time()
         t0 = time()
         for b in xrange(0, nb+1):
@@ -612,11 +615,11 @@ class HPELM(ELM):
 
             if b > 0:  # first iteration only prefetches data
                 # get data
-                Xb = qr_out.get()
+                Xb = qr_out.recv()
                 # process data
                 Yb = self.nnet._predict(Xb)
                 # save data
-                qw_in.put((Yb, start-istart, stop-istart))
+                qw_in.send((Yb, start-istart, stop-istart))
 
             start = start_next
             stop = stop_next
@@ -626,9 +629,7 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        qw_in.put(None)
-        reader.join()
-        writer.join()
+        qw_in.send(None)
 
     def _checkcorr(self, fHH, fHT):
         """Analog of `_checkdata()` for correlation matrices.
diff --git a/hpelm/modules/__init__.py b/hpelm/modules/__init__.py
index d8f1006..17f4f4c 100644
--- a/hpelm/modules/__init__.py
+++ b/hpelm/modules/__init__.py
@@ -8,4 +8,5 @@ Created on Sat Feb 21 20:46:31 2015
 from .mrsr import mrsr
 from .mrsr2 import mrsr2
 from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .hdf5_tools import _start_ireader, _start_iwriter, _finish_helpers, _stop_helpers
 from .rbf_param import rbf_param
\ No newline at end of file
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 2200d3c..5ea1f8a 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -12,6 +12,7 @@ import numpy as np
 from six import string_types
 from six.moves import range
 import csv
+import multiprocessing as mp
 from tables import open_file, Atom, Filters
 import os
 import fasteners  # inter-process file lock
@@ -257,7 +258,7 @@ def _ireader(fX, q_in, q_out):
     """Asyncronous reader for an HDF5 file.
 
     q_in - a (start, stop) tuple of read indexes; if start >= stop then reader terminates
-    q_out - a queue for chunks red from a disk
+    q_out - a pipe end for chunks red from a disk
     """
     assert isinstance(fX, string_types), "Asyncronous I/O only supported with HDF5 data files"
     hX = open_file(fX, "r")
@@ -269,14 +270,29 @@ def _ireader(fX, q_in, q_out):
         start, stop = q_in.get()
         if start >= stop:
             break
-        q_out.put(X[start:stop])
+        q_out.send(X[start:stop])
     hX.close()
 
 
+def _start_ireader(fX, helpers):
+    """Starts an asyncronous reader, and adds its process to a list of helpers.
+
+    Its pipe end is closed here, so that reading from a failed reader gives an error instead of waiting forever.
+    """
+    q_in = mp.Queue()
+    q_out, q_send = mp.Pipe(duplex=False)
+    reader = mp.Process(target=_ireader, args=(fX, q_in, q_send))
+    reader.daemon = True
+    reader.start()
+    helpers.append(reader)
+    q_send.close()
+    return q_in, q_out
+
+
 def _iwriter(fX, q_in):
     """Asyncronous writer for an HDF5 file.
 
-    q_in - a (Xbatch, start, stop) tuple of data to write indexes; if q_in is None then writer terminates
+    q_in - a pipe end with (Xbatch, start, stop) tuples of data to write indexes; if q_in is None then writer terminates
     """
     assert isinstance(fX, string_types), "Asyncronous I/O only supported with HDF5 data files"
     hX = open_file(fX, "a")
@@ -285,7 +301,7 @@ def _iwriter(fX, q_in):
         pass  # find a node with whatever name
 
     while True:  # returning data chunks on demand
-        data = q_in.get()
+        data = q_in.recv()
         if data is None:
             break
         Xb, start, stop = data
@@ -294,6 +310,38 @@ def _iwriter(fX, q_in):
     hX.close()
 
 
+def _start_iwriter(fX, helpers):
+    """Starts an asyncronous writer, and adds its process to a list of helpers.
+
+    Its pipe end is closed here, so that writing to a failed writer gives an error instead of waiting forever.
+    """
+    q_recv, q_in = mp.Pipe(duplex=False)
+    writer = mp.Process(target=_iwriter, args=(fX, q_recv))
+    writer.daemon = True
+    writer.start()
+    helpers.append(writer)
+    q_recv.close()
+    return q_in
+
+
+def _finish_helpers(helpers):
+    """Waits until all helpers have done their work, and checks that they did.
+    """
+    for process in helpers:
+        process.join()
+        if process.exitcode != 0:
+            raise IOError("Asyncronous I/O process failed with exit code %s" % process.exitcode)
+
+
+def _stop_helpers(helpers):
+    """Stops helpers that are still running after an error.
+    """
+    for process in helpers:
+        if process.is_alive():
+            process.terminate()
+        process.join()
+
+
 if __name__ == "__main__":
     # def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_level=0):
     # make_hdf5("textfile.txt", "text.h5")
-- 
2.43.0


From 23d2eae9ba03c51bddc5b2713330c7400f608f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 18/33] fix: mrsr() with a single regressor

---
 hpelm/modules/mrsr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..b46288d 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -70,6 +70,8 @@ def mrsr(X, T, kmax):
     Wols  = invXX * XT[ind, :]
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
+    if m == 1:  # no other regressors left, G is empty
+        return i1
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
     g     = G[G>=0].min()
     Y = g*Yols
-- 
2.43.0


From 7fb26eb8da3a68cf39401231393a3fe16619257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 19/33] fix: mrsr() when no step length is found

---
 hpelm/modules/mrsr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index b46288d..4112531 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -70,10 +70,9 @@ def mrsr(X, T, kmax):
     Wols  = invXX * XT[ind, :]
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
-    if m == 1:  # no other regressors left, G is empty
-        return i1
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
+    G     = G[G>=0]
+    g     = G.min() if G.size > 0 else 1  # full step if no other regressor is reached
     Y = g*Yols
 
     # Rest of the steps
@@ -115,7 +114,8 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            G = G[G>=0]  # may be empty if targets are already explained by the chosen regressors
+            g = G.min() if G.size > 0 else 1
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 566edb6e91653c4e1fb8cbfa2e1038906560806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 20/33] fix: make_hdf5() keeps the shape of compressed text
 files with one row

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 5ea1f8a..0f7ed48 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -197,7 +197,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 4a2bf0be5da181fb7a6ed755ef36306dc13f2314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 21/33] fix: normalize_hdf5() does not take partly normalized
 data for normalized

---
 hpelm/modules/hdf5_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 0f7ed48..4e33aa8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -131,6 +131,8 @@ def _normalize_hdf5(h5, mean, std, batch):
     node = None
     for node in h5.walk_nodes():
         pass  # find a node with whatever name
+    if "normalizing" in node.attrs:
+        raise IOError("Normalization of %s has failed before, data is only partly normalized" % h5.filename)
     dt = node.dtype
     N, d = node.shape  # HDF5 files are transposed, for Matlab compatibility
     if batch is None:
@@ -163,8 +165,10 @@ def _normalize_hdf5(h5, mean, std, batch):
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
     std = np.where(np.asarray(std) == 0, 1, std)  # prevent division by zero for std=0
+    node.attrs.normalizing = True  # stays in the file if normalization fails
     node.attrs.mean = mean
     node.attrs.std = std
+    h5.flush()
 
     print("applying normalization")
     for b in range(nb):
@@ -173,6 +177,8 @@ def _normalize_hdf5(h5, mean, std, batch):
         X = node[start: start+step].astype(np.float64)
         X = (X - mean) / std
         node[start: start+step] = X.astype(dt)
+    h5.flush()
+    del node.attrs.normalizing
 
     return mean, std
 
-- 
2.43.0


From a847ed8d861729eb86448eb0445e4356193852f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 22/33] fix: normalize_hdf5() computes zero deviation of
 constant columns

---
 hpelm/modules/hdf5_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 4e33aa8..fb00700 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -144,15 +144,16 @@ def _normalize_hdf5(h5, mean, std, batch):
     if mean is None or std is None:
         if node.attrs.mean is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
+            X0 = node[0, :].astype(np.float64)  # deviation of a constant column is exactly zero for shifted data
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
-                X1 = node[start: start+step, :].astype(np.float64)
+                X1 = node[start: start+step, :].astype(np.float64) - X0
                 E_x += np.mean(X1, 0) * (1.0*step/N)
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
-            mean = E_x
+            mean = E_x + X0
             E2_x = E_x**2
             std = np.maximum(E_x2 - E2_x, 0)**0.5  # rounding errors can make it negative
         else:  # data is already normalized
-- 
2.43.0


From d1497737504ee1c63343de2c54ee4164bb6adee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 23/33] fix: progress reports of asyncronous calls show the
 batch just finished

They reported the next batch, so the last report showed batch nb+1 of nb with
negative remaining time, and the first one came before any batch was done.
---
 hpelm/hp_elm.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 451a10e..869282a 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -569,11 +569,11 @@ class HPELM(ELM):
 
                 self.nnet.add_batch(Xb, Tb, wc_vector)
 
-            # report time
-            eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-            if time() - t > self.tprint:
-                print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
-                t = time()
+                # report time
+                eta = int(((time()-t0) / b) * (nb-b))
+                if time() - t > self.tprint:
+                    print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
+                    t = time()
 
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
@@ -621,13 +621,14 @@ class HPELM(ELM):
                 # save data
                 qw_in.send((Yb, start-istart, stop-istart))
 
+                # report time
+                eta = int(((time()-t0) / b) * (nb-b))
+                if time() - t > self.tprint:
+                    print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
+                    t = time()
+
             start = start_next
             stop = stop_next
-            # report time
-            eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-            if time() - t > self.tprint:
-                print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
-                t = time()
 
         qw_in.send(None)
 
-- 
2.43.0


From 9b0e8b331ff8912f8548f13d7ec826f32b1fde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 24/33] fix: optimal pruning of more neurons than data samples
 with many outputs

mrsr2() ranks at most one neuron per sample, and structure selection removed the
other neurons while using the error of a model that has them.
---
 hpelm/elm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 5c1bd2e..f57ac0e 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -535,6 +535,9 @@ class ELM(object):
                 rank = mrsr(H, T, L)
             else:  # slow mrsr for many outputs but O(t) in outputs
                 rank = mrsr2(H, T, L)
+                # at most one neuron per data sample is ranked, the others follow
+                rest = [i for i in range(H.shape[1]) if i not in set(rank)]
+                rank = np.array(rank + rest[:L - len(rank)])
         else:  # random ranking
             rank = np.arange(L)
             np.random.shuffle(rank)
-- 
2.43.0


From d7da27a338b63fb031f30c5d654c4bd57a40bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 25/33] fix: error of all neurons is not an error of kmax
 neurons in structure selection

---
 hpelm/mss_cv.py  | 3 ++-
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index ad4486b..94c8e67 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -66,7 +66,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # not an error of L best neurons, if their number is limited
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 14e8095..d2adb7a 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # not an error of L best neurons, if their number is limited
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index b29c31c..fc4879f 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if L == self.nnet.L:  # not an error of L best neurons, if their number is limited
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From a1b89700e41f54a926dd769fca292a611cc5bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 26/33] fix: make_hdf5() writes matrices with negative strides

---
 hpelm/modules/hdf5_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index fb00700..da6b6df 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -253,6 +253,8 @@ def _fill_hdf5(h5, data, X, fill, dtype, delimiter, skiprows, flt):
         h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
     else:  # write whole data matrix
         h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
+        if min(X.strides) < 0:
+            X = X.copy()  # PyTables writes wrong data from matrices with negative strides
         h5data[:] = X
     # close the file
     h5data.attrs.mean = None
-- 
2.43.0


From 98d5ec0bf863ebd413e2760f6910672359bea331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 27/33] fix: make_hdf5() writes matrices made by broadcasting

PyTables copies a non-contiguous array only if the sum of its strides is not zero.
---
 hpelm/modules/hdf5_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index da6b6df..ad4d92a 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -253,9 +253,7 @@ def _fill_hdf5(h5, data, X, fill, dtype, delimiter, skiprows, flt):
         h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
     else:  # write whole data matrix
         h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        if min(X.strides) < 0:
-            X = X.copy()  # PyTables writes wrong data from matrices with negative strides
-        h5data[:] = X
+        h5data[:] = np.ascontiguousarray(X)  # PyTables writes wrong data from views with zero sum of strides
     # close the file
     h5data.attrs.mean = None
     h5data.attrs.std = None
-- 
2.43.0


From a79faf4bee2aad144f834dae0dcd617a60c00dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 28/33] fix: cross-validation returns the test error of the
 selected number of neurons

---
 hpelm/mss_cv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 94c8e67..4c18b44 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -116,11 +116,12 @@ def train_cv(self, X, T, k):
     k_opt = [n1 for n1 in [iA, iB, iC, iD, iE] if e[n1] == m][0]  # find minimum index
     best_L = rank[:k_opt]
 
-    # get test error
+    # get test error for the optimal number of neurons
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From ab53e0791d885b7cc90c0869b3791efb42ce1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 29/33] fix: neurons with a custom numpy.ufunc, which
 add_neurons() accepts, can be projected

---
 hpelm/nnets/slfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index e9a0878..43c9681 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -116,7 +116,8 @@ class SLFN(object):
             H (matrix): an SLFN hidden layer representation, size (N * `L`) where 'L' is number of neurons
         """
         assert self.neurons is not None, "ELM has no neurons"
-        return np.hstack([self.func[ftype](X, W, B) for _, ftype, W, B in self.neurons])
+        return np.hstack([self.func[ftype](X, W, B) if ftype in self.func else ftype(np.dot(X, W) + B)
+                          for _, ftype, W, B in self.neurons])
 
     def _predict(self, X):
         """Predict a batch of data. Auxiliary function that implements a particular prediction.
-- 
2.43.0


From 31606b2782f950aa714fda7c6fd07ccbb48c8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 30/33] fix: class without samples got an infinite weight and
 made the model NaN

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 4 ++--
 hpelm/mss_cv.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index f57ac0e..7b8f55c 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -224,7 +224,7 @@ class ELM(object):
         # find automatic weights if none are given
         if self.classification == "wc" and self.wc is None:
             ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
+            self.wc = ns.sum() / np.maximum(ns, 1)  # weights of classes, finite for a class without samples
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
                           np.array_split(T, nb, axis=0)):
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 869282a..03aa752 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -141,7 +141,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 ns += T[start:stop].sum(axis=0)
             ns = ns.astype(self.precision)
-            self.wc = ns.sum() / ns  # class weights normalized to number of samples
+            self.wc = ns.sum() / np.maximum(ns, 1)  # class weights normalized to number of samples, finite if there are none
 
         # main loop over all the data
         t = time()
@@ -520,7 +520,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 ns += T[start:stop].sum(axis=0)
             ns = ns.astype(self.precision)
-            self.wc = ns.sum() / ns  # class weights normalized to number of samples
+            self.wc = ns.sum() / np.maximum(ns, 1)  # class weights normalized to number of samples, finite if there are none
 
         # close X and T files opened by _checkdata()
         h5 = self.opened_hdf5.pop()
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 4c18b44..26987d1 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -32,7 +32,7 @@ def train_cv(self, X, T, k):
     # class weights are the same for all splits and the final model
     if self.classification == "wc" and self.wc is None:
         ns = T.sum(axis=0).astype(self.precision)
-        self.wc = ns.sum() / ns
+        self.wc = ns.sum() / np.maximum(ns, 1)
 
     idxk = []
     for i in range(k):
-- 
2.43.0


From a1a4588fb340f41ab6d1b76c78aa44ce75047db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 31/33] fix: solve_corr() and validation_corr() left HH/HT
 files open when reading failed

add_data() to the same files in the same process failed afterwards.
---
 hpelm/hp_elm.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 03aa752..41c0149 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -639,27 +639,27 @@ class HPELM(ELM):
             h5 = open_file(fHH, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHH)
-        node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HH = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHH)
-        h5.close()
+        with h5:  # closed even if reading fails
+            node = None
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HH = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHH)
 
         try:
             h5 = open_file(fHT, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHT)
-        node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HT = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHT)
-        h5.close()
+        with h5:  # closed even if reading fails
+            node = None
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HT = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHT)
 
         L = self.nnet.L
         c = self.nnet.outputs
-- 
2.43.0


From 6c4152e62c690e7ca9c8d636f33107bed831253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 32/33] fix: files opened by name for a call stayed open in the
 model, later writing to them failed

---
 hpelm/elm.py    | 29 +++++++++++++++++++++++++++++
 hpelm/hp_elm.py | 11 ++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 7b8f55c..b0fc45a 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -6,6 +6,8 @@ Created on Mon Oct 27 17:48:33 2014
 """
 
 import numpy as np
+from functools import wraps
+from threading import get_ident
 from six.moves import cPickle, xrange
 from six import integer_types, string_types
 from tables import open_file
@@ -17,6 +19,25 @@ from .mss_cv import train_cv
 from .mss_loo import train_loo
 
 
+def _closes_files(method):
+    """Decorator that closes HDF5 files opened by name for a call, after it returns or fails.
+    """
+    @wraps(method)
+    def call(self, *args, **kwargs):
+        before = list(self.opened_hdf5)
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            for h5 in list(self.opened_hdf5):
+                if h5 not in before and h5.opened_by == get_ident():
+                    self.opened_hdf5.remove(h5)
+                    try:
+                        h5.close()
+                    except Exception:
+                        pass  # files are only read here, nothing is lost
+    return call
+
+
 class ELM(object):
     """Interface for training Extreme Learning Machines (ELM).
 
@@ -147,6 +168,7 @@ class ELM(object):
         if "batch" in kwargs.keys():
             self.batch = int(kwargs["batch"])
 
+    @_closes_files
     def train(self, X, T, *args, **kwargs):
         """Universal training interface for ELM model with model structure selection.
 
@@ -204,6 +226,7 @@ class ELM(object):
             self.nnet.solve()
         # TODO: Adaptive ELM model for timeseries (someday)
 
+    @_closes_files
     def add_data(self, X, T):
         """Feed new training data (X,T) to ELM model in batches; does not solve ELM itself.
 
@@ -286,6 +309,7 @@ class ELM(object):
         # add prepared neurons to the model
         self.nnet.add_neurons(number, func, W, B)
 
+    @_closes_files
     def error(self, T, Y):
         """Calculate error of model predictions.
 
@@ -313,6 +337,7 @@ class ELM(object):
         _, Y = self._checkdata(None, Y)
         return self._error(T, Y)
 
+    @_closes_files
     def confusion(self, T, Y):
         """Computes confusion matrix for classification.
 
@@ -356,6 +381,7 @@ class ELM(object):
                         conf[c1, c1h] += np.sum(Tb[:, c1] * Yb[:, c1h])
         return conf
 
+    @_closes_files
     def project(self, X):
         """Get ELM's hidden layer representation of input data.
 
@@ -369,6 +395,7 @@ class ELM(object):
         H = self.nnet._project(X)
         return H
 
+    @_closes_files
     def predict(self, X):
         """Predict outputs Y for the given input data X.
 
@@ -552,6 +579,7 @@ class ELM(object):
                     h5 = open_file(X, "r")
                 except:
                     raise IOError("Cannot read HDF5 file at %s" % X)
+                h5.opened_by = get_ident()
                 self.opened_hdf5.append(h5)
                 node = None
                 for node in h5.walk_nodes():
@@ -575,6 +603,7 @@ class ELM(object):
                     h5 = open_file(T, "r")
                 except IOError:
                     raise IOError("Cannot read HDF5 file at %s" % T)
+                h5.opened_by = get_ident()
                 self.opened_hdf5.append(h5)
                 node = None
                 for node in h5.walk_nodes():
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 41c0149..279af9f 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -12,7 +12,7 @@ from time import time
 from .modules import make_hdf5, _prepare_fHH, _write_fHH
 from .modules import _start_ireader, _start_iwriter, _finish_helpers, _stop_helpers
 from tables import open_file
-from .elm import ELM
+from .elm import ELM, _closes_files
 
 
 class HPELM(ELM):
@@ -54,6 +54,7 @@ class HPELM(ELM):
         A 2-dimensional Numpy.ndarray can also be used.
     """
 
+    @_closes_files
     def train(self, fX, fT, *args, **kwargs):
         """Universal training interface for HP-ELM model.
 
@@ -93,6 +94,7 @@ class HPELM(ELM):
         self.add_data(X, T, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @_closes_files
     def add_data(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Feed new training data (X,T) to HP-ELM model in batches: does not solve ELM itself.
 
@@ -181,6 +183,7 @@ class HPELM(ELM):
         B = self.nnet.solve_corr(HH, HT)
         self.nnet.set_B(B)
 
+    @_closes_files
     def predict(self, fX, fY=None, istart=0, icount=np.inf):
         """Iterative predict outputs and save them to HDF5, can use custom range.
 
@@ -243,6 +246,7 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+    @_closes_files
     def project(self, fX, fH=None, istart=0, icount=np.inf):
         """Iteratively project input data from HDF5 into HPELM hidden layer, and save in another HDF5.
 
@@ -305,6 +309,7 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+    @_closes_files
     def error(self, fT, fY, istart=0, icount=np.inf):
         """Calculate error of model predictions of HPELM.
 
@@ -397,6 +402,7 @@ class HPELM(ELM):
 
         return err
 
+    @_closes_files
     def validation_corr(self, fHH, fHT, fXv, fTv, steps=10):
         """Quick batch error evaluation with different numbers of neurons on a validation set.
 
@@ -480,6 +486,7 @@ class HPELM(ELM):
 
     # async-IO versions of methods
 
+    @_closes_files
     def train_async(self, fX, fT, *args, **kwargs):
         """Training HPELM with asyncronous I/O, good for network drives, etc. See `train()` for reference.
 
@@ -497,6 +504,7 @@ class HPELM(ELM):
         self.add_data_async(fX, fT, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @_closes_files
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -575,6 +583,7 @@ class HPELM(ELM):
                     print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
                     t = time()
 
+    @_closes_files
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
-- 
2.43.0


From 8fb58cee1bbe5ae71c53c11ed9b95b7221703059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 33/33] fix: add_data_async() waited forever for its readers if
 the range has no rows

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 279af9f..4212f89 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -518,7 +518,7 @@ class HPELM(ELM):
         _prepare_fHH(fHH, fHT, self.nnet, self.precision)
         # custom range adjustments
         icount = min(icount, N - istart)
-        nb = int(np.ceil(float(icount) / self.batch))
+        nb = max(0, int(np.ceil(float(icount) / self.batch)))  # readers must be stopped even without batches
 
         # weighted classification initialization
         if self.classification == "wc" and self.wc is None:
-- 
2.43.0

