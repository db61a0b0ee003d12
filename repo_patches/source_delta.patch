From de644077bbe1b11ee27393dea21bb19d181c607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 01/50] fix: read text data in make_hdf5 with an open mode that
 exists in current Python

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From c99c142a1b9b5b346f8d55d2d43de71e2a5dafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 02/50] fix: keep a single-row compressed text file as one row
 in make_hdf5

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..dfb06f8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -179,7 +179,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 89ca46c39ab3ac57947dd5e5081e35c8b599024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 03/50] fix: normalize_hdf5 applies the statistics it computes,
 once, and keeps given parameters intact

---
 hpelm/modules/hdf5_tools.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index dfb06f8..16adbba 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -104,19 +104,28 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     """
 
     h5 = open_file(h5file, "a")
+    try:
+        return _normalize_h5(h5, mean, std, batch)
+    finally:
+        h5.close()  # closing file
+
+
+def _normalize_h5(h5, mean, std, batch):
+    """Normalizes data in an opened HDF5 file, see `normalize_hdf5()`.
+    """
     node = None
     for node in h5.walk_nodes():
         pass  # find a node with whatever name
     dt = node.dtype
     N, d = node.shape  # HDF5 files are transposed, for Matlab compatibility
     if batch is None:
-        batch = node.chunkshape[0]
+        batch = (node.chunkshape or node.shape)[0]  # contiguous arrays have no chunks
     nb = N//batch
     if N > nb*batch:
         nb += 1  # add last incomplete step
 
     if mean is None or std is None:
-        if node.attrs.mean is None:  # data was not normalized before
+        if "mean" not in node.attrs or node.attrs.mean is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
@@ -128,23 +137,18 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
-            node.attrs.mean = mean
-            node.attrs.std = std
-            h5.close()
-            return mean, std
+            std = np.maximum(E_x2 - E2_x, 0)**0.5  # rounding can make a zero variance negative
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
-            h5.close()
             return node.attrs.mean, node.attrs.std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
+        mean = np.array(mean, dtype=np.float64)  # copies, given parameters are not changed
+        std = np.array(std, dtype=np.float64)
     std[std == 0] = 1  # prevent division by zero for std=0
 
     print("applying normalization")
@@ -155,7 +159,8 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         X = (X - mean) / std
         node[start: start+step] = X.astype(dt)
 
-    h5.close()  # closing file
+    node.attrs.mean = mean
+    node.attrs.std = std
     return mean, std
 
 
-- 
2.43.0


From 6e8f2589e8558f42100c844610c8a62589a63a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 04/50] fix: HPELM.project writes a window's rows at the right
 place

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From af13623ff39f93212102d24b8165550053a9dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 05/50] fix: HPELM weighted classification error without
 samples of some class is not NaN

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..a46d7c3 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 3de521fa301e30b21ac9a4a5aef08044ea24d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 06/50] fix: neurons with a custom numpy.ufunc can be used, not
 only added

---
 hpelm/nnets/slfn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..06e9656 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -79,6 +79,8 @@ class SLFN(object):
             W (matrix): a 2-D matrix of neuron weights, size (`inputs` * `number`)
             B (vector): a 1-D vector of neuron biases, size (`number` * 1)
         """
+        if isinstance(func, np.ufunc):  # custom transformation function
+            self.func[func] = lambda X, W, B: func(np.dot(X, W) + B).astype(self.precision)
         ntypes = [nr[1] for nr in self.neurons]  # existing types of neurons
         if func in ntypes:
             # add to an existing neuron type
-- 
2.43.0


From 23c6032d42ffebfe8c83ae346f8af262e47919ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 07/50] fix: mrsr ranks a single regressor

---
 hpelm/modules/mrsr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..f27a0df 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,8 +71,11 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
-    Y = g*Yols
+    if kmax == 1:  # a single step is a full step; G is empty if m==1
+        Y = Yols
+    else:
+        g = G[G>=0].min()
+        Y = g*Yols
 
     # Rest of the steps
     for k in np.arange(2,kmax+1):
-- 
2.43.0


From 03f39598bfffa7252ff9eb8db697cd9247cfad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 08/50] fix: mrsr falls back to the pseudo-inverse in current
 Numpy

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index f27a0df..0fbbdcd 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -100,7 +100,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From fa37304ad38dedc179ce0659a5d378b2902614bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 09/50] fix: mrsr2 uses the requested norm in every step

---
 hpelm/modules/mrsr2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 067cec5..6f6cac9 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -85,7 +85,7 @@ def mrsr2(X, T, kmax, norm=2):
             #c_max = np.linalg.norm(np.dot(T2, X[:, j_current]), norm)
             
             #fun = lambda y,x_new: (1-y)*c_max - np.linalg.norm(T2.dot(x_new) - y*Yk2.dot(x_new))
-            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2)  # super fast parametrized function
+            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2, norm)  # super fast parametrized function
     
             # find optimal step (minimum over possible additional inputs) 
             y_min = 1  # upper interval
@@ -94,7 +94,7 @@ def mrsr2(X, T, kmax, norm=2):
                 # pre-calculate constant parts of the optimization function for the given x_new
                 p1 = T2.dot(x_new)
                 p2 = Yk2.dot(x_new)
-                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2):  # skip optimization if min(fun) > y_min
+                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
                     try:
                         zero = 1E-15  # finding a value greater than zero
                         y_kj = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
-- 
2.43.0


From 79e33613ceb33db9136ccf340292cf5627fda6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 10/50] fix: cross-validation works with fewer than three
 neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..a57969b 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -68,7 +68,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From 2703a002f948773b3c397cb0ff03d7f70f0aa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 11/50] fix: weighted classification uses class weights in all
 steps of model structure selection

---
 hpelm/mss_cv.py  | 9 +++++++--
 hpelm/mss_loo.py | 2 +-
 hpelm/mss_v.py   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index a57969b..05598c8 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -29,6 +29,11 @@ def train_cv(self, X, T, k):
     L = self.nnet.L
     c = self.nnet.outputs
 
+    # find automatic class weights from all data, they must be the same in all folds
+    if self.classification == "wc" and self.wc is None:
+        ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+        self.wc = ns.sum() / ns  # weights of classes
+
     idxk = []
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
@@ -46,7 +51,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +123,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..14e8095 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..b29c31c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 1eddc4487bdd6bc88f51c3bd6c4520561badd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 12/50] fix: cross-validation returns the test error of the
 selected number of neurons

---
 hpelm/mss_cv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 05598c8..8c199eb 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -117,9 +117,10 @@ def train_cv(self, X, T, k):
 
     # get test error
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From e4bcfb8bab8c3f45e6dc06e5ce9113d5ccc9dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 13/50] fix: with kmax, selection evaluates the largest model
 it can select

---
 hpelm/mss_cv.py  | 3 ++-
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 8c199eb..a1cf6f3 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -66,7 +66,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # this error is for all neurons, not for a reduced number of them
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 14e8095..5835bd2 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # this error is for all neurons, not for a reduced number of them
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index b29c31c..f12a51a 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if L == self.nnet.L:  # this error is for all neurons, not for a reduced number of them
+        e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From 045362f51491a21321e0f664c1933c069aa973c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 14/50] fix: rbf_param takes a scalar distance, as current
 Numpy requires

---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 4a0568f849ddb0474a79972a86c569bb7947a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 15/50] fix: compare accelerator names by value

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..db2e8ac 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,11 +72,11 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator is "GPU":
+        if accelerator == "GPU":
             print("Using CUDA GPU acceleration with Scikit-CUDA")
             from .nnets.slfn_skcuda import SLFNSkCUDA
             self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator is "basic":
+        elif accelerator == "basic":
             print("Using slower basic Python solver")
             self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
         else: # double precision Numpy solver
-- 
2.43.0


From 2509a748c680f7842482dcdfe89cf6c188a68088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 16/50] fix: upper case classification type given at
 construction is not ignored

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index db2e8ac..fafe100 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -85,7 +85,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From d9d341b6fc9e0a69b2b47525d54b4f683de0e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 17/50] fix: lower case 'v', 'cv' and 'loo' are not ignored in
 training

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fafe100..5dc8c94 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -182,7 +182,7 @@ class ELM(object):
         X, T = self._checkdata(X, T)
         self._train_parse_args(args, kwargs)
 
-        # TODO: test upper case and lower case 'V', ...
+        args = [a.upper() for a in args]  # make all arguments upper case
         # train ELM with desired model structure selection
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-- 
2.43.0


From 828a6a0d551ec3b310c1e9af585a0bb35819527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 18/50] fix: loading a model replaces the old one and keeps the
 solver type

---
 hpelm/elm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 5dc8c94..f915d35 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -459,8 +459,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From 2a96ba2859f3b777c77ff62d38716d76016000b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 19/50] fix: SLFNPython does not double the lower triangle of a
 full HH matrix

---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 183cadfd0a205784f0fb750eaa6328d6e495af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 20/50] fix: on-disk accumulation does not change HH matrix of
 the solver

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a46d7c3..2736cfd 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,6 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # solver may return its own matrix
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
@@ -553,6 +554,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = HH.copy()  # solver may return its own matrix
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
-- 
2.43.0


From 2bd4a11051870f8bf52dc8d46ede40311f7f98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 21/50] fix: ELM.add_data refuses data that does not fit the
 model

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index f915d35..74edd58 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -217,6 +217,7 @@ class ELM(object):
             X (matrix): input training data
             T (matrix): output training data
         """
+        X, T = self._checkdata(X, T)
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 1bdd628f4a19aff56cb1ec0639609c7f4d38a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 22/50] fix: HPELM closes the HDF5 files it opens, so they can
 be used again

---
 hpelm/elm.py    | 16 ++++++++++++++++
 hpelm/hp_elm.py | 11 ++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 74edd58..73c8075 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -5,6 +5,7 @@ Created on Mon Oct 27 17:48:33 2014
 @author: akusok
 """
 
+from functools import wraps
 import numpy as np
 from six.moves import cPickle, xrange
 from six import integer_types, string_types
@@ -17,6 +18,20 @@ from .mss_cv import train_cv
 from .mss_loo import train_loo
 
 
+def _closes_hdf5(method):
+    """Makes a method close the HDF5 files that it opened with `_checkdata()`, when it returns or fails.
+    """
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        n = len(self.opened_hdf5)
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            while len(self.opened_hdf5) > n:
+                self.opened_hdf5.pop().close()
+    return wrapper
+
+
 class ELM(object):
     """Interface for training Extreme Learning Machines (ELM).
 
@@ -314,6 +329,7 @@ class ELM(object):
         _, Y = self._checkdata(None, Y)
         return self._error(T, Y)
 
+    @_closes_hdf5
     def confusion(self, T, Y):
         """Computes confusion matrix for classification.
 
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 2736cfd..b030b7a 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -12,7 +12,7 @@ from six import string_types
 from time import time
 from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
 from tables import open_file
-from .elm import ELM
+from .elm import ELM, _closes_hdf5
 
 
 class HPELM(ELM):
@@ -54,6 +54,7 @@ class HPELM(ELM):
         A 2-dimensional Numpy.ndarray can also be used.
     """
 
+    @_closes_hdf5
     def train(self, fX, fT, *args, **kwargs):
         """Universal training interface for HP-ELM model.
 
@@ -93,6 +94,7 @@ class HPELM(ELM):
         self.add_data(X, T, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @_closes_hdf5
     def add_data(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Feed new training data (X,T) to HP-ELM model in batches: does not solve ELM itself.
 
@@ -181,6 +183,7 @@ class HPELM(ELM):
         B = self.nnet.solve_corr(HH, HT)
         self.nnet.set_B(B)
 
+    @_closes_hdf5
     def predict(self, fX, fY=None, istart=0, icount=np.inf):
         """Iterative predict outputs and save them to HDF5, can use custom range.
 
@@ -239,6 +242,7 @@ class HPELM(ELM):
         elif fY is None:
             return Y
 
+    @_closes_hdf5
     def project(self, fX, fH=None, istart=0, icount=np.inf):
         """Iteratively project input data from HDF5 into HPELM hidden layer, and save in another HDF5.
 
@@ -297,6 +301,7 @@ class HPELM(ELM):
         elif fH is None:
             return H
 
+    @_closes_hdf5
     def error(self, fT, fY, istart=0, icount=np.inf):
         """Calculate error of model predictions of HPELM.
 
@@ -389,6 +394,7 @@ class HPELM(ELM):
 
         return err
 
+    @_closes_hdf5
     def validation_corr(self, fHH, fHT, fXv, fTv, steps=10):
         """Quick batch error evaluation with different numbers of neurons on a validation set.
 
@@ -462,6 +468,7 @@ class HPELM(ELM):
 
     # async-IO versions of methods
 
+    @_closes_hdf5
     def train_async(self, fX, fT, *args, **kwargs):
         """Training HPELM with asyncronous I/O, good for network drives, etc. See `train()` for reference.
 
@@ -479,6 +486,7 @@ class HPELM(ELM):
         self.add_data_async(fX, fT, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @_closes_hdf5
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -558,6 +566,7 @@ class HPELM(ELM):
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
+    @_closes_hdf5
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
-- 
2.43.0


From c266eee1ac7223af65d2292ce2c6ebd1b8f99806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 23/50] fix: parallel workers do not overwrite each other's
 newly created HH, HT files

---
 hpelm/modules/hdf5_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 16adbba..a826d89 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -26,7 +26,11 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
         nnet (nnets Object): neural network implementation from HPELM
         precision (np.float32/64): precision
     """
-    if (fHH is not None) and (fHT is not None):
+    if (fHH is None) or (fHT is None):
+        return
+
+    # files may be created or written by another process at the moment
+    with fasteners.InterProcessLock(fHH + ".lock"), fasteners.InterProcessLock(fHT + ".lock"):
         # reset accumulated data in ELM
         nnet.reset()
         L = nnet.L
-- 
2.43.0


From 30741b2e0d36470fb8f4dce65c4d9b4d3ad816dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 24/50] fix: validation_corr takes a vector of steps and never
 exceeds the number of neurons

---
 hpelm/hp_elm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index b030b7a..7fd82ea 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -424,9 +424,12 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
-        Ls = np.unique(Ls)  # numbers of neurons to check
+        if np.ndim(steps) > 0:  # numbers of neurons are given
+            Ls = np.array(steps, dtype=int)
+        else:
+            Ls = np.logspace(np.log(min(3, L)), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.minimum(np.ceil(Ls).astype(int), L)
+            Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
         nb = int(np.ceil(float(N) / self.batch))
-- 
2.43.0


From bf03ca12becc002e71e8066d049689d0c05f9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 25/50] fix: weighted classification error in validation_corr
 does not depend on the batch size

---
 hpelm/hp_elm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 7fd82ea..a547740 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -459,6 +459,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # per-class errors cannot be averaged over batches
+            for i in xrange(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - np.diag(confs[i])) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From 111bfedeff349295710c8b76df71e4ca868e9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 26/50] fix: basic solver does not invert rounding noise of
 rank-deficient single precision matrices

---
 hpelm/nnets/slfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 06e9656..44eaefe 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -177,7 +177,7 @@ class SLFN(object):
             HH (matrix): covariance matrix of hidden layer represenation H, size (`L` * `L`)
             HT (matrix): correlation matrix between H and outputs T, size (`L` * `outputs`)
         """
-        HH_pinv = np.linalg.pinv(HH)
+        HH_pinv = np.linalg.pinv(HH, rcond=HH.shape[0]*np.finfo(HH.dtype).eps)  # cut-off for its precision
         B = np.dot(HH_pinv, HT)
         return B
 
-- 
2.43.0


From 9435fd65ffadb10a78d5e431c63810d42f1c985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 27/50] fix: mrsr ranks regressors when nothing is left to fit

---
 hpelm/modules/mrsr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 0fbbdcd..316759f 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -74,7 +74,7 @@ def mrsr(X, T, kmax):
     if kmax == 1:  # a single step is a full step; G is empty if m==1
         Y = Yols
     else:
-        g = G[G>=0].min()
+        g = G[G>=0].min() if np.any(G>=0) else 1  # no step length if nothing is left to fit
         Y = g*Yols
 
     # Rest of the steps
@@ -116,7 +116,7 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            g = G[G>=0].min() if np.any(G>=0) else 1
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 4d35f18bd42c2ac47c4bbef416ceb61fda5abeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 28/50] fix: mrsr2 returns as many regressors as requested if
 there are few samples

---
 hpelm/modules/mrsr2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 6f6cac9..a51f914 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -47,10 +47,10 @@ def mrsr2(X, T, kmax, norm=2):
     Yk1 = np.zeros(T.shape)
     Wk1 = np.zeros((1, outs))
     j_current = None  # currently added input dimension
-    kmax = min(kmax, X.shape[0])    
+    kmax = min(kmax, ins)
     
     # get ranking
-    for _ in xrange(kmax):
+    for _ in xrange(min(kmax, X.shape[0])):
         
         # first step
         if len(rank) == 0:
@@ -131,8 +131,8 @@ def mrsr2(X, T, kmax, norm=2):
             W = (1-y_min)*W     
             W[rank] += y_min*Wk1   
                
-    # done, return ranking
-    return rank
+    # done, return ranking; nothing is left to fit for the regressors that did not enter the model
+    return rank + nonrank[:kmax - len(rank)]
 
         
 
-- 
2.43.0


From 24ce9ee5417eae4d71951605b78dc575abfc5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 29/50] fix: Leave-One-Out selection works with duplicated
 neurons

---
 hpelm/mss_loo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 5835bd2..b8bf473 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -8,6 +8,14 @@ Created on Mon Oct 27 17:48:33 2014
 import numpy as np
 
 
+def _inv(A):
+    """Inverse of a symmetric matrix, or a pseudo-inverse if it is singular (duplicated neurons)."""
+    try:
+        return np.linalg.inv(A)
+    except np.linalg.LinAlgError:
+        return np.linalg.pinv(A, rcond=len(A)*np.finfo(A.dtype).eps)
+
+
 def train_loo(self, X, T):
     """Model structure selection with Leave-One-Out (LOO) validation.
 
@@ -30,7 +38,7 @@ def train_loo(self, X, T):
     rank, L = self._ranking(L, H, T)  # create ranking of neurons
 
     # PRESS_LOO
-    P = np.linalg.inv(HH)
+    P = _inv(HH)
     Bt = np.dot(P, HT)
     R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H, P), H.T)
     Y = np.dot(H, Bt)
@@ -63,7 +71,7 @@ def train_loo(self, X, T):
                 HH1 = HH[rank1, :][:, rank1]
                 HT1 = HT[rank1, :]
 
-                P = np.linalg.inv(HH1)
+                P = _inv(HH1)
                 Bt1 = np.dot(P, HT1)
                 R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H1, P), H1.T)
                 Y1 = np.dot(H1, Bt1)
-- 
2.43.0


From 1cf4df2c04d7817efa0c274429027c7b62571862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 30/50] fix: mrsr2 moves the estimate towards the fit of the
 regressors that were active in the step

---
 hpelm/modules/mrsr2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index a51f914..76012f0 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -117,6 +117,12 @@ def mrsr2(X, T, kmax, norm=2):
             idx = len(rank)-1
             XA[:,idx] = X[:,j_current]
 
+        if len(rank) > 1:
+            # perform variable length step, towards the estimation with the previous set of inputs
+            Y = (1-y_min)*Y + y_min*Yk1
+            W = (1-y_min)*W     
+            W[rank[:-1]] += y_min*Wk1   
+
         # post-update ELM estimation with current set of inputs, with LU-ELM
         XtX = XX[rank,:][:,rank]
         XtT = XT[rank,:]
@@ -125,12 +131,6 @@ def mrsr2(X, T, kmax, norm=2):
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-        if len(rank) > 1:
-            # perform variable length step
-            Y = (1-y_min)*Y + y_min*Yk1
-            W = (1-y_min)*W     
-            W[rank] += y_min*Wk1   
-               
     # done, return ranking; nothing is left to fit for the regressors that did not enter the model
     return rank + nonrank[:kmax - len(rank)]
 
-- 
2.43.0


From 8442b29806f38fa8e5fb0ae75cc2f4ee764cb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 31/50] fix: HPELM closes HH, HT files that have no matrix
 inside

---
 hpelm/hp_elm.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a547740..78b19ba 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -638,26 +638,30 @@ class HPELM(ELM):
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHH)
         node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HH = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHH)
-        h5.close()
+        try:
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HH = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHH)
+        finally:
+            h5.close()
 
         try:
             h5 = open_file(fHT, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHT)
         node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HT = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHT)
-        h5.close()
+        try:
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HT = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHT)
+        finally:
+            h5.close()
 
         L = self.nnet.L
         c = self.nnet.outputs
-- 
2.43.0


From af77db75e17203c2c6f96df9e372d6762af289cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 32/50] fix: solving without training data is refused and keeps
 the solution

---
 hpelm/nnets/slfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 44eaefe..2f66874 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -166,6 +166,7 @@ class SLFN(object):
     def solve(self):
         """Redirects to solve_corr, to avoid duplication of code.
         """
+        assert self.HH is not None and self.HT is not None, "Add training data before solving the task"
         self.B = self.solve_corr(self.HH, self.HT)
 
     def solve_corr(self, HH, HT):
-- 
2.43.0


From 170f0982738ea2fe746ab9f638322be3bd64e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 33/50] fix: rbf_param reads an HDF5 file with any array name

---
 hpelm/modules/rbf_param.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index c4148d3..6d4596b 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -26,7 +26,9 @@ def rbf_param(data, k, kind="sqeuclidean"):
         kind = "sqeuclidean"
     if isinstance(data, string_types):
         h5 = open_file(data, "r")
-        X = h5.root.data
+        X = None
+        for X in h5.walk_nodes():
+            pass  # find a node with whatever name
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
-- 
2.43.0


From 38255711fa7a7dfcffd310f1084b38c6e960efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 34/50] fix: rbf_param does not hang if all sampled points
 coincide

---
 hpelm/modules/rbf_param.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 6d4596b..269ef0d 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -42,6 +42,10 @@ def rbf_param(data, k, kind="sqeuclidean"):
         if i == j:
             j += 1
         dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
+    if not np.any(dist):  # all sampled pairs are duplicates, use distances from one sample
+        dist = cdist(X[0][None, :], X[:], kind)
+        dist = dist[dist > 0]
+        assert len(dist) > 0, "Cannot find RBF widths, all data samples are the same"
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 4b5755043fbc54d29192a45114141a59132d903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 35/50] fix: RBF neurons on GPU keep the precision of the model

---
 hpelm/nnets/slfn_skcuda.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 8f8e267..197c905 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -107,7 +107,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "cityblock")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "cityblock")**2 / B).astype(self.precision))
         return devH
 
     def _dev_rbfl2(self, devX, devW, devB):
@@ -115,7 +115,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "euclidean")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "euclidean")**2 / B).astype(self.precision))
         return devH
 
     def _dev_rbflinf(self, devX, devW, devB):
@@ -123,7 +123,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "chebyshev")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "chebyshev")**2 / B).astype(self.precision))
         return devH
 
     def add_neurons(self, number, func, W, B):
-- 
2.43.0


From 07565d51dad1062236700079f49e2095580eb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 36/50] fix: GPU solver keeps its matrices in C order

---
 hpelm/nnets/slfn_skcuda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 197c905..03adb39 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -146,12 +146,12 @@ class SLFNSkCUDA(SLFN):
             i = ntypes.index(func)
             nn0, _, devW, devB = self.neurons[i]
             number = nn0 + number
-            devW = gpuarray.to_gpu(np.hstack((devW.get(), W)))
+            devW = gpuarray.to_gpu(np.ascontiguousarray(np.hstack((devW.get(), W))))
             devB = gpuarray.to_gpu(np.hstack((devB.get(), B)))
             self.neurons[i] = (number, func, devW, devB)
         else:
             # create a new neuron type
-            devW = gpuarray.to_gpu(W)
+            devW = gpuarray.to_gpu(np.ascontiguousarray(W))
             devB = gpuarray.to_gpu(B)
             self.neurons.append((number, func, devW, devB))
         self.reset()
@@ -306,7 +306,7 @@ class SLFNSkCUDA(SLFN):
         """
         assert B.shape[0] == self.L, "Incorrect first dimension: %d expected, %d found" % (self.L, B.shape[0])
         assert B.shape[1] == self.outputs, "Incorrect output dimension: %d expected, %d found" % (self.outputs, B.shape[1])
-        self.B = gpuarray.to_gpu(B.astype(self.precision))
+        self.B = gpuarray.to_gpu(B.astype(self.precision, order='C'))
 
     def get_corr(self):
         """Return current correlation matrices.
@@ -333,8 +333,8 @@ class SLFNSkCUDA(SLFN):
         assert HH.shape[0] == self.L, msg
         assert HH.shape[0] == HT.shape[0], "HH and HT must have the same number of rows (%d)" % self.L
         assert HT.shape[1] == self.outputs, "Number of columns in HT must equal number of outputs (%d)" % self.outputs
-        self.HH = gpuarray.to_gpu(HH.astype(self.precision))
-        self.HT = gpuarray.to_gpu(HT.astype(self.precision))
+        self.HH = gpuarray.to_gpu(HH.astype(self.precision, order='C'))
+        self.HT = gpuarray.to_gpu(HT.astype(self.precision, order='C'))
 
     def get_neurons(self):
         """Return current neurons.
-- 
2.43.0


From b95153efb0936a268019510fcc3435d2c50e0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 37/50] fix: automatic class weights count samples of any
 target type in double precision

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 4 ++--
 hpelm/mss_cv.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 73c8075..ca91015 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -239,7 +239,7 @@ class ELM(object):
 
         # find automatic weights if none are given
         if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+            ns = T.sum(axis=0, dtype=np.float64).astype(self.precision)  # number of samples in classes
             self.wc = ns.sum() / ns  # weights of classes
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 78b19ba..5a0b825 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -141,7 +141,7 @@ class HPELM(ELM):
             for b in xrange(nb):  # batch sum is much faster
                 start = b*self.batch + istart
                 stop = min((b+1)*self.batch + istart, icount + istart)
-                ns += T[start:stop].sum(axis=0)
+                ns += T[start:stop].sum(axis=0, dtype=np.float64)
             ns = ns.astype(self.precision)
             self.wc = ns.sum() / ns  # class weights normalized to number of samples
 
@@ -517,7 +517,7 @@ class HPELM(ELM):
             for b in xrange(nb):  # batch sum is much faster
                 start = b*self.batch + istart
                 stop = min((b+1)*self.batch + istart, icount + istart)
-                ns += T[start:stop].sum(axis=0)
+                ns += T[start:stop].sum(axis=0, dtype=np.float64)
             ns = ns.astype(self.precision)
             self.wc = ns.sum() / ns  # class weights normalized to number of samples
 
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index a1cf6f3..bef3bf9 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -31,7 +31,7 @@ def train_cv(self, X, T, k):
 
     # find automatic class weights from all data, they must be the same in all folds
     if self.classification == "wc" and self.wc is None:
-        ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+        ns = T.sum(axis=0, dtype=np.float64).astype(self.precision)  # number of samples in classes
         self.wc = ns.sum() / ns  # weights of classes
 
     idxk = []
-- 
2.43.0


From 319874321299e23ffe420a68704386611e299be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 38/50] fix: mean squared error of narrow integer or half
 precision targets and predictions

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index ca91015..20961bb 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -507,7 +507,7 @@ class ELM(object):
             elif self.classification == "ml":
                 err = np.not_equal(Y > 0.5, T > 0.5).mean()
             else:
-                err = np.mean((Y - T)**2)
+                err = np.mean((np.asarray(Y, dtype=np.float64) - T)**2)
         else:  # LOO_PRESS error
             if self.classification == "c":
                 err = np.not_equal(Y.argmax(1), T.argmax(1)) / R.ravel()
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 5a0b825..53c5cd1 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -389,7 +389,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 Tb = T[start:stop]
                 Yb = Y[start:stop]
-                errb = np.mean((Tb - Yb)**2)
+                errb = np.mean((Tb.astype(np.float64) - Yb)**2)
                 err += errb * float(stop-start)/icount
 
         return err
-- 
2.43.0


From daf9b904e156bf397d9a747f545ad375d93d6ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 39/50] fix: a refused batch size does not stay in the model

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 20961bb..a7456ff 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -160,6 +160,7 @@ class ELM(object):
                 self.classification = None  # reset to regression
 
         if "batch" in kwargs.keys():
+            assert int(kwargs["batch"]) > 0, "Batch should be positive"
             self.batch = int(kwargs["batch"])
 
     def train(self, X, T, *args, **kwargs):
-- 
2.43.0


From 84ccfe51d5b2ca6f20465ffb100e7a5e23bd6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 40/50] fix: asynchronous operations refuse in-memory matrices
 instead of hanging

---
 hpelm/hp_elm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 53c5cd1..dd34f40 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -503,6 +503,8 @@ class HPELM(ELM):
         """
         # initialize
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM before using it"
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fT, string_types), msg
         X, T = self._checkdata(fX, fT)
         N = X.shape[0]
         # TODO: adapt for GPU solver
@@ -583,6 +585,8 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fY, string_types), msg
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From 13626a2b45509f6909749ccd5d5474a95c56d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 41/50] fix: make_hdf5 closes its output file when data cannot
 be stored

---
 hpelm/modules/hdf5_tools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index a826d89..e4fdd21 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -211,11 +211,20 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         X = X[:, np.newaxis]
     assert len(X.shape) == 2, "Data in Numpy ndarray must have 2 dimensions"
     # create hdf5 file
+    h5 = open_file(h5file, "w")
+    try:
+        _fill_hdf5(h5, X, fill, data, dtype, delimiter, skiprows, comp_level)
+    finally:
+        h5.close()  # also if data cannot be stored
+
+
+def _fill_hdf5(h5, X, fill, data, dtype, delimiter, skiprows, comp_level):
+    """Writes data to an opened HDF5 file, see `make_hdf5()`.
+    """
     if comp_level > 0:
         flt = Filters(complevel=comp_level, shuffle=True)
     else:
         flt = Filters(complevel=0)
-    h5 = open_file(h5file, "w")
     a = Atom.from_dtype(np.dtype(dtype), dflt=0)
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
@@ -236,7 +245,6 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     h5data.attrs.mean = None
     h5data.attrs.std = None
     h5.flush()
-    h5.close()
 
 
 def _ireader(fX, q_in, q_out):
-- 
2.43.0


From cfa9f3a6a1f691630562327c81e7cdd778685c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 42/50] fix: rbf_param closes the data file when it fails

---
 hpelm/modules/rbf_param.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 269ef0d..43c8cd4 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -26,12 +26,22 @@ def rbf_param(data, k, kind="sqeuclidean"):
         kind = "sqeuclidean"
     if isinstance(data, string_types):
         h5 = open_file(data, "r")
-        X = None
-        for X in h5.walk_nodes():
-            pass  # find a node with whatever name
+        try:
+            X = None
+            for X in h5.walk_nodes():
+                pass  # find a node with whatever name
+            return _rbf_param(X, k, kind)
+        finally:
+            h5.close()
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
+        return _rbf_param(X, k, kind)
+
+
+def _rbf_param(X, k, kind):
+    """Calculates parameters for RBF neurons from an array or an opened HDF5 node, see `rbf_param()`.
+    """
     N = X.shape[0]
     Nk = min(10*k, N-1)
     dist = np.zeros((Nk,))
@@ -65,7 +75,5 @@ def rbf_param(data, k, kind="sqeuclidean"):
             i += 1
             if i == k:
                 break
-    if isinstance(data, string_types):
-        h5.close()
 
     return W, B
-- 
2.43.0


From f215429ea37583ff2a6bd77f4915807ec2dfe9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 43/50] fix: predict and project close the result file when
 they fail

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index dd34f40..ed75b74 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -210,6 +210,7 @@ class HPELM(ELM):
         if isinstance(fY, string_types):
             make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
             h5 = open_file(fY, "a")
+            self.opened_hdf5.append(h5)  # closed if prediction fails
             for Y in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fY is None:  # create Numpy array
@@ -267,6 +268,7 @@ class HPELM(ELM):
         if isinstance(fH, string_types):
             make_hdf5((icount, self.nnet.L), fH, dtype=self.precision)
             h5 = open_file(fH, "a")
+            self.opened_hdf5.append(h5)  # closed if projection fails
             for H in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fH is None:  # create Numpy array
-- 
2.43.0


From c4277559a8cd09f395099394a60c1fcb4a1d65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 44/50] fix: failed asynchronous operations end their I/O
 processes

---
 hpelm/hp_elm.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index ed75b74..5757ce0 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -5,6 +5,7 @@ Created on Mon Oct 27 17:48:33 2014
 @author: akusok
 """
 
+from functools import wraps
 import numpy as np
 import multiprocessing as mp
 from six.moves import xrange
@@ -15,6 +16,23 @@ from tables import open_file
 from .elm import ELM, _closes_hdf5
 
 
+def _ends_processes(method):
+    """Makes a method end the I/O processes that it started, if they are still running when it fails.
+    """
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        self.processes = []
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            for process in self.processes:
+                if process.is_alive():
+                    process.terminate()
+                    process.join()
+            self.processes = []
+    return wrapper
+
+
 class HPELM(ELM):
     """Interface for training High-Performance Extreme Learning Machines (HP-ELM).
 
@@ -498,6 +516,7 @@ class HPELM(ELM):
         self.nnet.solve()
 
     @_closes_hdf5
+    @_ends_processes
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -537,11 +556,13 @@ class HPELM(ELM):
         readerX = mp.Process(target=_ireader, args=(fX, qX_in, qX_out))
         readerX.daemon = True
         readerX.start()
+        self.processes.append(readerX)
         qT_in = mp.Queue()
         qT_out = mp.Queue(1)
         readerT = mp.Process(target=_ireader, args=(fT, qT_in, qT_out))
         readerT.daemon = True
         readerT.start()
+        self.processes.append(readerT)
 
         # main loop over all the data
         t = time()
@@ -580,6 +601,7 @@ class HPELM(ELM):
             _write_fHH(fHH, fHT, HH, HT)
 
     @_closes_hdf5
+    @_ends_processes
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
@@ -603,10 +625,12 @@ class HPELM(ELM):
         reader = mp.Process(target=_ireader, args=(fX, qr_in, qr_out))
         reader.daemon = True
         reader.start()
+        self.processes.append(reader)
         qw_in = mp.Queue(1)
         writer = mp.Process(target=_iwriter, args=(fY, qw_in))
         writer.daemon = True
         writer.start()
+        self.processes.append(writer)
 
         t = time()
         t0 = time()
-- 
2.43.0


From ee99fc4b316e3e5e0a1ea0ee0dcad80ec14acefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 45/50] fix: asynchronous operations report a failed I/O
 process instead of hanging

---
 hpelm/hp_elm.py             | 14 ++++++++------
 hpelm/modules/__init__.py   |  2 +-
 hpelm/modules/hdf5_tools.py | 24 ++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 5757ce0..9faaaf7 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -11,7 +11,7 @@ import multiprocessing as mp
 from six.moves import xrange
 from six import string_types
 from time import time
-from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .modules import make_hdf5, _ireader, _iwriter, _iget, _iput, _prepare_fHH, _write_fHH
 from tables import open_file
 from .elm import ELM, _closes_hdf5
 
@@ -576,8 +576,8 @@ class HPELM(ELM):
             qT_in.put((start_next, stop_next))
 
             if b > 0:  # first iteration only prefetches data
-                Xb = qX_out.get()
-                Tb = qT_out.get()
+                Xb = _iget(qX_out, readerX)
+                Tb = _iget(qT_out, readerT)
                 if self.classification == "wc":
                     wc_vector = self.wc[np.where(Tb == 1)[1]]  # weights for samples in the batch
 
@@ -642,11 +642,11 @@ class HPELM(ELM):
 
             if b > 0:  # first iteration only prefetches data
                 # get data
-                Xb = qr_out.get()
+                Xb = _iget(qr_out, reader)
                 # process data
                 Yb = self.nnet._predict(Xb)
                 # save data
-                qw_in.put((Yb, start-istart, stop-istart))
+                _iput((Yb, start-istart, stop-istart), qw_in, writer)
 
             start = start_next
             stop = stop_next
@@ -656,9 +656,11 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        qw_in.put(None)
+        _iput(None, qw_in, writer)
         reader.join()
         writer.join()
+        if writer.exitcode != 0:
+            raise IOError("Cannot write predictions to HDF5 file at %s" % fY)
 
     def _checkcorr(self, fHH, fHT):
         """Analog of `_checkdata()` for correlation matrices.
diff --git a/hpelm/modules/__init__.py b/hpelm/modules/__init__.py
index d8f1006..8c4769c 100644
--- a/hpelm/modules/__init__.py
+++ b/hpelm/modules/__init__.py
@@ -7,5 +7,5 @@ Created on Sat Feb 21 20:46:31 2015
 
 from .mrsr import mrsr
 from .mrsr2 import mrsr2
-from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _iget, _iput, _prepare_fHH, _write_fHH
 from .rbf_param import rbf_param
\ No newline at end of file
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e4fdd21..05a7895 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -11,6 +11,7 @@ from __future__ import division
 import numpy as np
 from six import string_types
 from six.moves import range
+from six.moves.queue import Empty, Full
 import csv
 from tables import open_file, Atom, Filters
 import os
@@ -288,6 +289,29 @@ def _iwriter(fX, q_in):
     hX.close()
 
 
+def _iget(q, process):
+    """Gets data from a queue filled by an I/O process, raises an error if the process has failed.
+    """
+    while True:
+        alive = process.is_alive()
+        try:
+            return q.get(timeout=1)
+        except Empty:
+            if not alive:
+                raise IOError("Asyncronous I/O process has failed")
+
+
+def _iput(data, q, process):
+    """Puts data to a queue read by an I/O process, raises an error if the process has failed.
+    """
+    while True:
+        try:
+            return q.put(data, timeout=1)
+        except Full:
+            if not process.is_alive():
+                raise IOError("Asyncronous I/O process has failed")
+
+
 if __name__ == "__main__":
     # def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_level=0):
     # make_hdf5("textfile.txt", "text.h5")
-- 
2.43.0


From a29ae360c1f728eb16fadb2f7c74799e10f8e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 46/50] fix: validation_corr refuses impossible numbers of
 neurons before changing the model

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 9faaaf7..2a82ba3 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -450,6 +450,7 @@ class HPELM(ELM):
             Ls = np.logspace(np.log(min(3, L)), np.log(L), steps, base=np.e, endpoint=True)
             Ls = np.minimum(np.ceil(Ls).astype(int), L)
             Ls = np.unique(Ls)  # numbers of neurons to check
+        assert len(Ls) > 0 and min(Ls) > 0 and max(Ls) <= L, "Numbers of neurons must be between 1 and %d" % L
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
         nb = int(np.ceil(float(N) / self.batch))
-- 
2.43.0


From d1bb36651a2bccfb1a65597926fda09c7ffa5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 47/50] fix: refuse a maximum number of neurons below one

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index a7456ff..ab26acb 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -142,6 +142,7 @@ class ELM(object):
             if a == "OP":
                 self.ranking = "OP"
                 if "kmax" in kwargs.keys():
+                    assert int(kwargs["kmax"]) > 0, "Maximum number of neurons (kmax) must be positive"
                     self.kmax_op = int(kwargs["kmax"])
             if a == "C":
                 assert self.nnet.outputs > 1, "Classification outputs must have 1 output per class"
-- 
2.43.0


From 6a340f4484c0934eade1b735bafc7812f6abd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 48/50] fix: adding to stored matrices closes their files when
 it fails

---
 hpelm/modules/hdf5_tools.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 05a7895..7cf7884 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -80,23 +80,19 @@ def _write_fHH(fHH, fHT, HH, HT):
     Lock file has the same name as fHH,fHT, but with '.lock' extension.
     """
     fHH_lock = fHH + ".lock"
-    with fasteners.InterProcessLock(fHH_lock):
-        h5 = open_file(fHH, "a")
+    with fasteners.InterProcessLock(fHH_lock), open_file(fHH, "a") as h5:
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         node[:] += HH
         h5.flush()
-        h5.close()
 
     fHT_lock = fHT + ".lock"
-    with fasteners.InterProcessLock(fHT_lock):
-        h5 = open_file(fHT, "a")
+    with fasteners.InterProcessLock(fHT_lock), open_file(fHT, "a") as h5:
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         node[:] += HT
         h5.flush()
-        h5.close()
 
 
 def normalize_hdf5(h5file, mean=None, std=None, batch=None):
-- 
2.43.0


From 1b2707310c50ea24c6b103e23474af336a4b2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 49/50] fix: a failed save keeps the model saved earlier

---
 hpelm/elm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index ab26acb..fdff24e 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -414,9 +414,10 @@ class ELM(object):
             fname (string): filename to save model into.
         """
         assert isinstance(fname, string_types), "Model file name must be a string"
-        m = self._get_output_format()
+        m = cPickle.dumps(self._get_output_format(), -1)  # an existing file is kept if this fails
         try:
-            cPickle.dump(m, open(fname, "wb"), -1)
+            with open(fname, "wb") as f:
+                f.write(m)
         except IOError:
             raise IOError("Cannot create a model file at: %s" % fname)
 
-- 
2.43.0


From d165a234b0d2418a8958b111c74196bc047a313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 50/50] fix: RBF parameters of a file with many duplicate rows
 do not read the whole file

---
 hpelm/modules/rbf_param.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 43c8cd4..8f7308c 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -53,8 +53,8 @@ def _rbf_param(X, k, kind):
             j += 1
         dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     if not np.any(dist):  # all sampled pairs are duplicates, use distances from one sample
-        dist = cdist(X[0][None, :], X[:], kind)
-        dist = dist[dist > 0]
+        dist = [cdist(X[0][None, :], X[i: i+1000], kind) for i in xrange(0, N, 1000)]  # data may not fit into memory
+        dist = np.hstack([d1[d1 > 0] for d1 in dist])
         assert len(dist) > 0, "Cannot find RBF widths, all data samples are the same"
     m = dist.mean()
     s = dist.std()
-- 
2.43.0

