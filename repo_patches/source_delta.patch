From 5fdfab60f5c77226e00bc4d8b23822a0baec06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 01/46] fix: MPI helpers honour a root other than rank 0

---
 src/pyuoi/mpi_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..bb76556 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -112,7 +112,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +120,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
@@ -167,5 +167,5 @@ def Gatherv_rows(send, comm=None, root=0):
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From 676f6a22efbedb9cf68223b0215ae6b928187694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 02/46] fix: CUR and UoI_CUR draw their columns and bootstraps
 from random_state

---
 src/pyuoi/decomposition/CUR.py   | 12 +++++++++---
 src/pyuoi/decomposition/utils.py |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..59bbff2 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -89,6 +89,11 @@ class UoI_CUR(AbstractDecompositionModel):
             A numpy array containing the indices of the selected columns.
         """
         ks, cs = self.check_ks_and_cs(ks=ks, cs=cs)
+        # a single stream for the whole fit, from which every bootstrap gets
+        # its own seed
+        random_state = check_random_state(self.random_state)
+        boot_seeds = random_state.randint(np.iinfo(np.int32).max,
+                                          size=self.n_boots)
         n_ks = ks.size
         n_samples, n_features = X.shape
         selection_threshold = stability_selection_to_threshold(
@@ -113,7 +118,8 @@ class UoI_CUR(AbstractDecompositionModel):
             else:
                 X_train, _ = train_test_split(X, test_size=1 - self.boots_frac,
                                               stratify=stratify,
-                                              random_state=self.random_state)
+                                              random_state=boot_seeds[
+                                                  bootstrap])
             # perform truncated SVD on bootstrap
             tsvd.fit(X_train)
             # extract right singular vectors
@@ -124,7 +130,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=random_state)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..12e7b54 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -16,6 +18,9 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         If True, resorts the column indices in increasing order of leverage
         score. If False, the column indices are sorted normally.
 
+    random_state : int, RandomState instance, or None
+        The seed or pseudo random number generator used to draw the columns.
+
     Returns
     -------
     column_indices : ndarray of ints
@@ -24,7 +29,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 781391ad2730e6e8ab321b494a9832f51ac0ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 03/46] fix: Poisson coordinate descent stops only at an
 optimum of the full problem

---
 src/pyuoi/linear_model/poisson.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..304f171 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -219,13 +219,12 @@ class Poisson(BaseEstimator):
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # every coefficient is active in the first sweep: even with a warm
+        # start, coefficients which are zero may have to become nonzero
+        active_idx = np.arange(n_features)
 
         prev_coef = np.copy(coef)
+        prev_intercept = intercept
         # perform coordinate descent updates
         for iteration in range(self.max_iter):
             # linearize the log-likelihood
@@ -239,10 +238,19 @@ class Poisson(BaseEstimator):
                 active_idx=active_idx)
 
             # check convergence
-            if np.max(np.abs(prev_coef - coef)) < self.tol:
-                break
+            if (
+                np.max(np.abs(prev_coef - coef)) < self.tol
+                and np.abs(prev_intercept - intercept) < self.tol
+            ):
+                # coefficients outside of the active set may still violate
+                # the optimality conditions: finish only after a full sweep
+                if active_idx.size == n_features:
+                    break
+                active_idx = np.arange(n_features)
+                continue
 
             prev_coef = np.copy(coef)
+            prev_intercept = intercept
 
             # update the active features
             active_idx = np.argwhere(coef != 0).ravel()
-- 
2.43.0


From 848d984a6a6f169c8e9a62072516f44e2396caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 04/46] fix: Poisson without an intercept can predict

---
 src/pyuoi/linear_model/poisson.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 304f171..7974786 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -83,7 +83,9 @@ class Poisson(BaseEstimator):
         # check if the response variable is constant
         if np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
-            if np.any(y):
+            if not self.fit_intercept:
+                self.intercept_ = 0.
+            elif np.any(y):
                 self.intercept_ = np.log(y.mean())
             else:
                 self.intercept_ = -np.inf
@@ -126,14 +128,13 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
             self.coef_, intercept = self._cd(X=X, y=y,
                                              sample_weight=sample_weight)
-
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.intercept_ = intercept
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From afc2fbaab3adac720c0055b5c45167e574030de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 05/46] fix: Poisson models without an intercept do not center
 the design

---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 7974786..76b9a87 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -319,7 +319,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -622,7 +622,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From a30c85331322dfb79ae5c076fa12749fa63c65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 06/46] fix: UoI_Poisson honours standardize=False

---
 src/pyuoi/linear_model/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 76b9a87..1aed5a8 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -486,6 +486,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
+            max_iter=max_iter,
+            tol=tol,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From bbc078f24933a8bbfddc1d6ec0b80c0d9c7328a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 07/46] fix: generalized linear models return the intercept in
 the units of the data

---
 src/pyuoi/linear_model/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..547598a 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -718,8 +718,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From 36f9633bcb99f0aea3da25b86411f6c185ffeb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 08/46] fix: a single feature, or a single regularization
 value, keeps its axis

---
 src/pyuoi/linear_model/base.py    | 7 ++++---
 src/pyuoi/linear_model/poisson.py | 2 +-
 src/pyuoi/linear_model/utils.py   | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 547598a..4f4be99 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -297,8 +297,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            selection_coefs[ii] = np.reshape(
+                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params),
+                selection_coefs.shape[1:])
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -562,7 +563,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.squeeze(self.coef_, axis=0)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 1aed5a8..41fed1c 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -636,7 +636,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = np.squeeze(self.coef_, axis=0)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From 6c244a76736fb65621c3cb11a9a259e9bb7aeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 09/46] fix: nothing of a previous bootstrap or fit is left to
 warm start from

---
 src/pyuoi/linear_model/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 4f4be99..9eaa797 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -278,9 +278,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
                 if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
+                    del self._selection_lm.coef_
                 if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                    del self._selection_lm.intercept_
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From 7ac42f8579f3aa81c77bab0ffeeecfa80b468d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 10/46] fix: COO matrices are converted to a format which can
 be resampled

---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 9eaa797..3372d6f 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -203,7 +203,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         X, y = self._pre_fit(X, y)
 
-        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc', 'coo'],
+        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
                          y_numeric=True, multi_output=True)
 
         # extract model dimensions
-- 
2.43.0


From d124f335afede454b68657a1c8436baf6995958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 11/46] fix: the intercept of a fit to a sparse design is an
 array

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 3372d6f..ec4cdda 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -652,8 +652,9 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
     def _fit_intercept(self, X, y):
         """Fit the intercept."""
         if self.fit_intercept:
+            X_mean = np.asarray(X.mean(axis=0)).ravel()
             self.intercept_ = (y.mean(axis=0) -
-                               np.dot(X.mean(axis=0), self.coef_.T))
+                               np.dot(X_mean, self.coef_.T))
         else:
             self.intercept_ = np.zeros(1)
 
-- 
2.43.0


From 58652903bb8b722506fb5c3fc686235e078b3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 12/46] fix: NumPy integers are seeds too

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ec4cdda..39c12e7 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -1,4 +1,5 @@
 import abc as _abc
+import numbers
 import numpy as np
 import logging
 from sklearn.linear_model._base import SparseCoefMixin
@@ -102,7 +103,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From 81732f6a298cebde800e37ca96cbb80c56f8d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 13/46] fix: a second fit computes the regularization path of
 its own data

---
 src/pyuoi/linear_model/elasticnet.py | 21 +++++++-------
 src/pyuoi/linear_model/logistic.py   | 41 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 25 ++++++++---------
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..b0db14e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -152,27 +152,26 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+        alpha_max = abs(grad[:-1]).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 41fed1c..76cdda1 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -536,19 +536,18 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                ybar = y.mean()
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            ybar = y.mean()
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From 47a4598bfe13541014a3be6e138e5151e64a1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 14/46] fix: the logistic regularization path starts at the
 null model

---
 src/pyuoi/linear_model/logistic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b0db14e..3216c3b 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -158,7 +158,7 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 intercept = LogisticInterceptFitterNoFeatures(
                     y, 1).intercept_
                 w = np.concatenate([w, np.atleast_1d(intercept)])
-            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+            _, grad = _logistic_loss_and_grad(w, X, 2 * y - 1, 0., None)
         else:
             w = np.zeros((self.output_dim, input_dim))
             yp = OneHotEncoder(categories=[range(self.output_dim)],
@@ -169,7 +169,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
             _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                 np.ones(X.shape[0]))
-        alpha_max = abs(grad[:-1]).max()
+        grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+        alpha_max = abs(grad).max()
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
-- 
2.43.0


From 53e5a098ab62e8793df71d4293ad343a4d759a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 15/46] fix: without an intercept, the last coefficient is a
 coefficient like the others

---
 src/pyuoi/linear_model/logistic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 3216c3b..99ef64a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -697,10 +697,8 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
 
                 def zero_coef(x, *args):
                     if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
-                    now_zeros = np.array_equiv(x, 0.)
+                        x = x.reshape(-1, classes.size)
+                    now_zeros = np.array_equiv(x[:n_features], 0.)
                     if now_zeros:
                         zeros_seen[0] += 1
                     else:
-- 
2.43.0


From 1f94dd152820133b7fa473d44c9053ef285b3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 16/46] fix: a logistic fit to a constant response

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 99ef64a..59ed24a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -217,7 +217,7 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
         def f_df(intercept):
             py = sigmoid(X.dot(coef_.T) + intercept)
             dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            return log_loss(y, py, labels=[0, 1]), np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
-- 
2.43.0


From eefe2813dfd02e7ae728ec757da1d2148448379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 17/46] fix: MaskedCoefLogisticRegression predicts the labels
 it was given

---
 src/pyuoi/linear_model/logistic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 59ed24a..84c031a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -379,7 +379,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
-- 
2.43.0


From 03a60785868f81395143f26d2d45fff70074cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 18/46] fix: MaskedCoefLogisticRegression returns the intercept
 in the units of the data

---
 src/pyuoi/linear_model/logistic.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 84c031a..f5e7cca 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -404,10 +404,18 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             warm_start_coef = getattr(self, 'coef_', None)
         else:
             warm_start_coef = None
-        if warm_start_coef is not None and self.fit_intercept:
-            warm_start_coef = np.append(warm_start_coef,
-                                        self.intercept_[:, np.newaxis],
-                                        axis=1)
+        if warm_start_coef is not None:
+            warm_start_intercept = self.intercept_
+            if self.standardize:
+                # the solver works in standardized units
+                warm_start_intercept = (warm_start_intercept
+                                        + np.dot(self._X_scaler.mean_,
+                                                 warm_start_coef.T))
+                warm_start_coef = warm_start_coef * self._X_scaler.scale_
+            if self.fit_intercept:
+                warm_start_coef = np.append(warm_start_coef,
+                                            warm_start_intercept[:, np.newaxis],
+                                            axis=1)
 
         self.intercept_ = np.zeros(n_classes)
 
@@ -436,7 +444,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -455,6 +463,8 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
-- 
2.43.0


From bba490eeab506b8cb0d8343d66a4ce328bb67070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 19/46] fix: an all zero L1 logistic solution keeps its
 intercept

---
 src/pyuoi/linear_model/logistic.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f5e7cca..fe1f13c 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -673,7 +673,7 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
     coefs = list()
     n_iter = np.zeros(len(Cs), dtype=np.int32)
     for i, C in enumerate(Cs):
-        if coef_mask is None or coef_mask.sum():
+        if coef_mask is None or coef_mask.sum() or fit_intercept:
             iprint = [-1, 50, 1, 100, 101][
                 np.searchsorted(np.array([0, 1, 2, 3]), verbose)]
             if penalty == 'l2':
@@ -724,6 +724,21 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                                     progress=zero_coef)
                 except AllZeroLBFGSError:
                     w0 *= 0.
+                    if fit_intercept:
+                        # the intercept is not penalized
+                        if multi_class == 'multinomial':
+                            log_p = np.log(np.dot(sample_weight, Y_multi))
+                            w0[-classes.size:] = log_p - log_p.max()
+                        else:
+                            w0[-1] = np.log(sample_weight[mask].sum()
+                                            / sample_weight[~mask].sum())
+                    # the solver may have stopped too early: this returns at
+                    # once if the null model is optimal
+                    w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
+                                    args=args,
+                                    max_iterations=max_iter,
+                                    epsilon=tol,
+                                    orthantwise_end=coef_size)
                 info = None
             if info is not None and info["warnflag"] == 1:
                 warnings.warn("lbfgs failed to converge. Increase the number "
-- 
2.43.0


From ddcbcb2dd8550b457e731c20c5da9b02379d91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 20/46] fix: the Poisson regularization path without an
 intercept starts at the null model

---
 src/pyuoi/linear_model/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 76cdda1..44c1dcf 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -541,7 +541,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         # sci-kit learn parlance)
         for alpha_idx, alpha in enumerate(self.alphas):
             # calculate upper bound for lambda sweep
-            ybar = y.mean()
+            ybar = y.mean() if self.fit_intercept else 1.
             lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
             self.lambdas[alpha_idx, :] = np.logspace(
-- 
2.43.0


From 5914fbc65a667c057bb3541184945ad1663a8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 21/46] fix: a proportion of bootstraps is not truncated
 because of rounding

---
 src/pyuoi/decomposition/utils.py |  3 ++-
 src/pyuoi/linear_model/utils.py  | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 12e7b54..4109768 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -75,7 +75,8 @@ def stability_selection_to_threshold(stability_selection, n_boots):
 
     # float, indicating proportion of bootstraps
     if isinstance(stability_selection, float):
-        selection_threshold = int(stability_selection * n_boots)
+        # round first, as e.g. 0.29 * 100 is slightly less than 29
+        selection_threshold = int(round(stability_selection * n_boots, 8))
 
     # int, indicating number of bootstraps
     elif isinstance(stability_selection, int):
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 9fd0ce2..0c3dd37 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -1,6 +1,12 @@
 import numpy as np
 
 
+def _proportion_to_count(proportion, n_boots):
+    """The whole number of bootstraps in a proportion of them. The product is
+    rounded first, as e.g. 0.29 * 100 is slightly less than 29."""
+    return np.round(np.multiply(proportion, n_boots), 8).astype(int)
+
+
 def stability_selection_to_threshold(stability_selection, n_boots):
     """Converts user inputted stability selection to an array of
     thresholds. These thresholds correspond to the number of bootstraps
@@ -24,9 +30,9 @@ def stability_selection_to_threshold(stability_selection, n_boots):
 
     # single float, indicating proportion of bootstraps
     if isinstance(stability_selection, float):
-        selection_thresholds = np.array([int(
-            stability_selection * n_boots
-        )])
+        selection_thresholds = np.array([
+            _proportion_to_count(stability_selection, n_boots)
+        ])
 
     # single int, indicating number of bootstraps
     elif isinstance(stability_selection, int):
@@ -39,7 +45,7 @@ def stability_selection_to_threshold(stability_selection, n_boots):
         # list of floats
         if all(isinstance(idx, float) for idx in stability_selection):
             selection_thresholds = \
-                n_boots * np.array(stability_selection)
+                _proportion_to_count(stability_selection, n_boots)
 
         # list of ints
         elif all(isinstance(idx, int) for idx in stability_selection):
@@ -53,7 +59,8 @@ def stability_selection_to_threshold(stability_selection, n_boots):
     elif isinstance(stability_selection, np.ndarray):
         # np array of floats
         if np.issubdtype(stability_selection.dtype.type, np.floating):
-            selection_thresholds = n_boots * stability_selection
+            selection_thresholds = \
+                _proportion_to_count(stability_selection, n_boots)
 
         # np array of ints
         elif np.issubdtype(stability_selection.dtype.type, np.integer):
-- 
2.43.0


From fc90b84c30851e828e1406bf08bc1fbbeb4fe3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 22/46] fix: load_swimmer does not open the packaged data for
 writing

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..0c42f97 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -7,7 +7,7 @@ from ..utils import softmax, sigmoid
 def load_swimmer(flatten=True):
     from pkg_resources import resource_filename
     import h5py
-    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r+') as f:
+    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r') as f:
         swimmers = f['Y'][:].astype(float)
     if flatten:
         swimmers = swimmers.T.reshape(256, 1024)
-- 
2.43.0


From 1361b2d01ca7b9f824faf6a5c89aea16e157b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 23/46] fix: L-BFGS propagates callback errors and maps every
 stop to a result or an error

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 37 ++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..30a3580 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -113,12 +113,19 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
+    if errors:
+        return np.nan
     tshape[0] = <np.npy_intp>n
     x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
     g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
 
-    return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    try:
+        return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    except BaseException as error:
+        # raised again by minimize
+        errors.append(error)
+        return np.nan
 
 
 # Callback into Python progress reporting callable.
@@ -131,8 +138,10 @@ cdef int call_progress(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
 
+    if errors:
+        return LBFGSERR_CANCELED
     if progress_fn:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
@@ -140,10 +149,17 @@ cdef int call_progress(void *cb_data_v,
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>g)
 
-        r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-                        xnorm, gnorm, step, k, ls, *args)
-        # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
+        try:
+            r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
+                            xnorm, gnorm, step, k, ls, *args)
+            if r is None or r == 0:
+                return 0
+            # any other value must not be mistaken for a status of the library
+            return LBFGS_ALLZERO if r == LBFGS_ALLZERO else LBFGSERR_CANCELED
+        except BaseException as error:
+            # raised again by minimize
+            errors.append(error)
+            return LBFGSERR_CANCELED
     else:
         return 0
 
@@ -396,11 +412,14 @@ cdef class LBFGS(object):
         x_a = aligned_copy(x0.ravel())
 
         try:
-            callback_data = (f, progress, x0.shape, args)
+            errors = []
+            callback_data = (f, progress, x0.shape, args, errors)
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if errors:
+                raise errors[0]
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From d3bc9bff34a0b3145a7e7e2011f960ef608275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 24/46] fix: NMF coefficients of integer data are not truncated

---
 src/pyuoi/decomposition/NMF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..aeb8f76 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -269,7 +269,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        # coefficients of integer data are not integers
+        W = np.zeros((n_samples, self.n_components),
+                     dtype=np.result_type(X.dtype, np.float32))
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From 55fe674227fe7ba58e06761db34e4fb75df119cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 25/46] fix: clusters of NMF bases may have any labels

---
 src/pyuoi/decomposition/NMF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index aeb8f76..ba0e6c2 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -229,9 +229,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                           n_clusters)
         H_cons = np.zeros((n_clusters, n_features))
 
-        for c_id in cluster_ids:
-            H_cons[c_id, :] = self.cons_meth(H_pre_cluster[labels == c_id],
-                                             axis=0)
+        for idx, c_id in enumerate(cluster_ids):
+            H_cons[idx, :] = self.cons_meth(H_pre_cluster[labels == c_id],
+                                            axis=0)
 
         # re-normalize across features
         H_cons = normalize(H_cons, norm='l2', axis=1)
-- 
2.43.0


From 6875a4876c9b1acbd2a9725512d6aedbd4833f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 26/46] fix: NumPy integers are seeds of NMF too

---
 src/pyuoi/decomposition/NMF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index ba0e6c2..9b9f262 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -1,3 +1,4 @@
+import numbers
 import scipy.optimize as spo
 import numpy as np
 import logging
@@ -143,7 +144,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, numbers.Integral):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
-- 
2.43.0


From 101c00e827139b44b404fc2e215973309becbb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 27/46] fix: UoI_NMF uses the solvers it is given

---
 src/pyuoi/decomposition/NMF.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 9b9f262..7f1ce79 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -418,28 +418,31 @@ class UoI_NMF(UoI_NMF_Base):
         nmf=None, cluster=None, nnreg=None, cons_meth=None
     ):
         # create NMF solver
-        nmf = skNMF(init=nmf_init,
-                    solver=nmf_solver,
-                    beta_loss=nmf_beta_loss,
-                    tol=nmf_tol,
-                    max_iter=nmf_max_iter)
+        if nmf is None:
+            nmf = skNMF(init=nmf_init,
+                        solver=nmf_solver,
+                        beta_loss=nmf_beta_loss,
+                        tol=nmf_tol,
+                        max_iter=nmf_max_iter)
 
         # create DBSCAN solver
         if db_min_samples is None:
             db_min_samples = max(n_boots // 2, 1)
-        dbscan = DBSCAN(eps=db_eps,
-                        min_samples=db_min_samples,
-                        metric=db_metric,
-                        metric_params=db_metric_params,
-                        algorithm=db_algorithm)
+        if cluster is None:
+            cluster = DBSCAN(eps=db_eps,
+                             min_samples=db_min_samples,
+                             metric=db_metric,
+                             metric_params=db_metric_params,
+                             algorithm=db_algorithm,
+                             leaf_size=db_leaf_size)
 
         super(UoI_NMF, self).__init__(
             n_boots=n_boots,
             ranks=ranks,
             nmf=nmf,
-            cluster=dbscan,
-            nnreg=None,
-            cons_meth=np.mean,
+            cluster=cluster,
+            nnreg=nnreg,
+            cons_meth=cons_meth,
             random_state=random_state,
             use_dissimilarity=use_dissimilarity,
             logger=logger)
-- 
2.43.0


From 3f8e45ee0c18c6a6a1f6afad97a831f4bb81ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 28/46] fix: NumPy integers are seeds of make_classification
 too

---
 src/pyuoi/datasets/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 0c42f97..d4aef87 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -1,3 +1,4 @@
+import numbers
 import numpy as np
 from sklearn.utils import check_random_state
 
@@ -123,7 +124,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, numbers.Integral):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
-- 
2.43.0


From b02e7922b73c0629d25300a0b5116a4db2ee1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 29/46] fix: pycasso sweeps of one or two regularization values

pycasso takes one or two lambdas for the number and ratio of a path, so
that a sweep of fewer than three values failed or crashed; in a fit with
more ranks than bootstraps every sweep is of one value.
---
 src/pyuoi/linear_model/lasso.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 2bc148e..664aa22 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -101,16 +101,20 @@ class PycLasso():
                       'issues/25 for resolution.')
             raise ValueError(string)
 
+        # pycasso takes one or two lambdas for (number, ratio) of a path
+        n_alphas = len(self.alphas)
+        lambdas = np.append(self.alphas, [self.alphas[-1]] * (3 - n_alphas))
+
         self.solver = pycasso.Solver(X, y, family='gaussian',
                                      useintercept=self.fit_intercept,
-                                     lambdas=self.alphas,
+                                     lambdas=lambdas,
                                      penalty='l1',
                                      max_ite=self.max_iter,
                                      prec=self.tol)
         self.solver.train()
         # Coefs across the entire solution path
-        self.coef_ = self.solver.result['beta']
-        self.intercept_ = self.solver.result['intercept']
+        self.coef_ = self.solver.result['beta'][:n_alphas]
+        self.intercept_ = self.solver.result['intercept'][:n_alphas]
         self.isfitted = True
         return self
 
-- 
2.43.0


From b4fc62b04607d6de1eda8735f7bc4548b7269dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 30/46] fix: pycasso lasso solves uncentered problems exactly

pycasso only solves the lasso with an intercept to its tolerance when the
data are centered, which bootstraps of standardized data are not: its
solutions missed the optimality conditions by up to a tenth of the
penalty and had other supports than the lasso.
---
 src/pyuoi/linear_model/lasso.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 664aa22..8379700 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -101,11 +101,16 @@ class PycLasso():
                       'issues/25 for resolution.')
             raise ValueError(string)
 
+        # pycasso's intercept is only exact for centered data
+        X_mean = X.mean(axis=0)
+        y_mean = y.mean()
+
         # pycasso takes one or two lambdas for (number, ratio) of a path
         n_alphas = len(self.alphas)
         lambdas = np.append(self.alphas, [self.alphas[-1]] * (3 - n_alphas))
 
-        self.solver = pycasso.Solver(X, y, family='gaussian',
+        self.solver = pycasso.Solver(X - X_mean, y - y_mean,
+                                     family='gaussian',
                                      useintercept=self.fit_intercept,
                                      lambdas=lambdas,
                                      penalty='l1',
@@ -114,7 +119,8 @@ class PycLasso():
         self.solver.train()
         # Coefs across the entire solution path
         self.coef_ = self.solver.result['beta'][:n_alphas]
-        self.intercept_ = self.solver.result['intercept'][:n_alphas]
+        self.intercept_ = (self.solver.result['intercept'][:n_alphas]
+                           + y_mean - np.dot(self.coef_, X_mean))
         self.isfitted = True
         return self
 
-- 
2.43.0


From 28cf123a248bed53c42c27031b6c10d618403d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 31/46] fix: Poisson coordinate descent with a feature that is
 zero everywhere

The coordinate update divided zero by zero without an l2 penalty, so that
a constant feature (standardized to zero) made the coefficients nan.
---
 src/pyuoi/linear_model/poisson.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 44c1dcf..4107657 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -309,10 +309,14 @@ class Poisson(BaseEstimator):
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
-            # replace coefficients sequentially
-            coef[idx] = \
-                self.soft_threshold(num_update, self.l1_ratio * self.alpha) \
-                / (den_update + self.alpha * (1 - self.l1_ratio))
+            den_update += self.alpha * (1 - self.l1_ratio)
+            # replace coefficients sequentially; a feature which is zero in
+            # every sample has no effect and no coefficient
+            if den_update != 0:
+                coef[idx] = self.soft_threshold(
+                    num_update, self.l1_ratio * self.alpha) / den_update
+            else:
+                coef[idx] = 0.
 
         return coef, intercept
 
-- 
2.43.0


From 6588bb20a514891c8782d9de8356980d3d52d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 32/46] fix: Poisson warm starts from the previous intercept in
 the solver's units

With standardize=True the intercept of the previous solution was used as if it
were the one of the standardized design (coordinate descent could diverge to
nan), and the infinite intercept of a response of zeros was used as it is.
---
 src/pyuoi/linear_model/poisson.py | 34 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 4107657..d799f16 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -94,14 +94,8 @@ class Poisson(BaseEstimator):
         if self.solver == 'lbfgs':
             coef = np.zeros(self.n_features)
             intercept = 0
-            if self.warm_start:
-                if hasattr(self, 'coef_'):
-                    if self.standardize:
-                        coef = self.coef_ * self._X_scaler.scale_
-                    else:
-                        coef = self.coef_
-                if hasattr(self, 'intercept_') and self.fit_intercept:
-                    intercept = self.intercept_
+            if self.warm_start and hasattr(self, 'coef_'):
+                coef, intercept = self._warm_start_point()
 
             if self.fit_intercept:
                 coef = np.append(coef, intercept)
@@ -178,6 +172,18 @@ class Poisson(BaseEstimator):
         mu = np.exp(self.intercept_ + np.dot(X, self.coef_))
         return mu
 
+    def _warm_start_point(self):
+        """The previous solution in the units the solvers work in."""
+        coef, intercept = np.array(self.coef_), 0
+        # the fit to a response of zeros has an infinite intercept
+        if self.fit_intercept and np.isfinite(self.intercept_):
+            intercept = self.intercept_
+            if self.standardize:
+                intercept += np.dot(self._X_scaler.mean_, coef)
+        if self.standardize:
+            coef *= self._X_scaler.scale_
+        return coef, intercept
+
     def _cd(self, X, y, sample_weight=None):
         """Performs coordinate descent on a dataset.
 
@@ -209,16 +215,8 @@ class Poisson(BaseEstimator):
         coef = np.zeros(n_features)
         intercept = 0
         # warm start coefficients, if necessary
-        if self.warm_start:
-            if hasattr(self, 'coef_'):
-                if self.standardize:
-                    coef = self.coef_ * self._X_scaler.scale_
-                else:
-                    coef = self.coef_
-
-            if self.fit_intercept:
-                if hasattr(self, 'intercept_'):
-                    intercept = self.intercept_
+        if self.warm_start and hasattr(self, 'coef_'):
+            coef, intercept = self._warm_start_point()
 
         # every coefficient is active in the first sweep: even with a warm
         # start, coefficients which are zero may have to become nonzero
-- 
2.43.0


From f75b236f82c56c30b2e4a8ca9c5b6fd1ec1eda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 33/46] fix: L-BFGS keeps no correction pair without curvature

A step along which the gradient did not change (a feature which is zero
everywhere, started from a nonzero coefficient) was stored with s.y = 0 and
made the next directions nan, so the search stopped short of the optimum.
---
 liblbfgs/lbfgs.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 7c29728..a78b9a7 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -264,7 +264,7 @@ int lbfgs(
     lbfgsfloatval_t *g = NULL, *gp = NULL, *pg = NULL;
     lbfgsfloatval_t *d = NULL, *w = NULL, *pf = NULL;
     iteration_data_t *lm = NULL, *it = NULL;
-    lbfgsfloatval_t ys, yy;
+    lbfgsfloatval_t ys, yy, scale = 1.;
     lbfgsfloatval_t xnorm, gnorm, beta;
     lbfgsfloatval_t fx = 0.;
     lbfgsfloatval_t rate = 0.;
@@ -457,6 +457,7 @@ int lbfgs(
 
     k = 1;
     end = 0;
+    bound = 0;
     for (;;) {
         /* Store the current position and gradient vectors. */
         veccpy(xp, x, n);
@@ -552,7 +553,17 @@ int lbfgs(
          */
         vecdot(&ys, it->y, it->s, n);
         vecdot(&yy, it->y, it->y, n);
-        it->ys = ys;
+
+        /*
+            A step along which the gradient does not change says nothing
+            about the curvature (and cannot be divided by): it is not stored.
+         */
+        if (ys != 0.) {
+            it->ys = ys;
+            scale = ys / yy;
+            end = (end + 1) % m;
+            if (bound < m) ++bound;
+        }
 
         /*
             Recursive formula to compute dir = -(H \cdot g).
@@ -562,9 +573,7 @@ int lbfgs(
                 Mathematics of Computation, Vol. 35, No. 151,
                 pp. 773--782, 1980.
          */
-        bound = (m <= k) ? m : k;
         ++k;
-        end = (end + 1) % m;
 
         /* Compute the steepest direction. */
         if (param.orthantwise_c == 0.) {
@@ -585,7 +594,7 @@ int lbfgs(
             vecadd(d, it->y, -it->alpha, n);
         }
 
-        vecscale(d, ys / yy, n);
+        vecscale(d, scale, n);
 
         for (i = 0;i < bound;++i) {
             it = &lm[j];
-- 
2.43.0


From 6594bd5fa73978f5540a51fbdfef14dd2d0823e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 34/46] fix: Gatherv_rows passes integer counts to MPI

np.prod(()) is a float: one-dimensional arrays (the scores of every
distributed fit) were rejected by mpi4py with a TypeError on the root.
---
 src/pyuoi/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index bb76556..84ad2f8 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -160,7 +160,8 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        sizes = [size * np.prod(rec_shape[1:], dtype=int)
+                 for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
-- 
2.43.0


From 821f9e1c8ce0f7a3d230d57e7f13375bf42a0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 35/46] fix: the coordinate descents do not draw from the
 bootstraps' generator

Given a RandomState, every selection fit advanced it, so a rank which ran
fewer of them (a distributed fit) drew other estimation bootstraps, and with
random_state=None a fit with warm starts drew others than one without.
---
 src/pyuoi/linear_model/elasticnet.py | 3 ++-
 src/pyuoi/linear_model/lasso.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 9b9d838..ec3aaf8 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -125,7 +125,8 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             tol=tol,
             copy_X=copy_X,
             warm_start=warm_start,
-            random_state=random_state)
+            # unused by cyclic descent, but every fit would advance it
+            random_state=0)
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
     def get_reg_params(self, X, y):
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 8379700..da71c5d 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -242,7 +242,8 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 max_iter=max_iter,
                 tol=tol,
                 warm_start=warm_start,
-                random_state=random_state,
+                # unused by cyclic descent, but every fit would advance it
+                random_state=0,
                 fit_intercept=fit_intercept)
         elif solver == 'pyc':
             if pycasso is None:
-- 
2.43.0


From ebe0268a385dd3a27852b0c5a7b41dbfe76025fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 36/46] fix: broadcasting a zero-dimensional array keeps its
 shape

---
 src/pyuoi/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 84ad2f8..5694573 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -32,7 +32,7 @@ def check_valid_ndarray(X):
         return X
     if not isinstance(X, np.ndarray):
         raise ValueError('Must be a numpy ndarray.')
-    return np.ascontiguousarray(X)
+    return np.asarray(X, order='C')
 
 
 def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
-- 
2.43.0


From 90f7e3466394791189d9db8634db40d4f20598a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 37/46] fix: L-BFGS refuses a memory of less than one
 correction

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 30a3580..3ddfa4c 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -399,6 +399,10 @@ cdef class LBFGS(object):
         if progress is not None and not callable(progress):
             raise TypeError("progress must be callable, got %s" % type(f))
 
+        # liblbfgs does not check the size of its memory
+        if self.params.m <= 0:
+            raise LBFGSError("Invalid parameter m specified.")
+
         x0 = np.atleast_1d(x0)
         n = np.product(x0.shape)
 
-- 
2.43.0


From 2ddab56942be25b3dab61c9fc33a8c96031269dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 38/46] fix: log-likelihood scores of classifiers do not depend
 on the labels

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 39c12e7..d2acba3 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -788,7 +788,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            # y holds the indices of the classes, not their labels
+            ll = -log_loss(y, y_pred, labels=np.arange(self.classes_.size))
             if metric == 'log':
                 score = ll
             else:
-- 
2.43.0


From 93dbf39928a9acac2a00fb882e7f23e0af24d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 39/46] fix: class weights are given for the labels of the
 caller

---
 src/pyuoi/linear_model/logistic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index fe1f13c..3272897 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -417,6 +417,12 @@ class MaskedCoefLogisticRegression(LogisticRegression):
                                             warm_start_intercept[:, np.newaxis],
                                             axis=1)
 
+        class_weight = self.class_weight
+        if isinstance(class_weight, dict):
+            # the weights are given for the labels, y holds their indices
+            class_weight = dict(enumerate(compute_class_weight(
+                class_weight, classes=self.classes_, y=self.classes_[y])))
+
         self.intercept_ = np.zeros(n_classes)
 
         fold_coefs_ = _logistic_regression_path(
@@ -424,7 +430,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             fit_intercept=self.fit_intercept,
             tol=self.tol, verbose=self.verbose,
             multi_class=multi_class, max_iter=self.max_iter,
-            class_weight=self.class_weight, penalty=self.penalty,
+            class_weight=class_weight, penalty=self.penalty,
             check_input=False,
             coef=warm_start_coef,
             sample_weight=sample_weight, coef_mask=coef_mask)
-- 
2.43.0


From 93cffc0ce9b00d3d54b13ab725b3d1edd20c1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 40/46] fix: multinomial gradients of integer designs are not
 integers

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 3272897..35edbd5 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -904,7 +904,7 @@ def _multinomial_loss_grad(w, X, Y, alpha, mask, sample_weight):
         w[:, :n_features] *= mask
         w = w.ravel()
     grad = np.zeros((n_classes, n_features + bool(fit_intercept)),
-                    dtype=X.dtype)
+                    dtype=w.dtype)
     loss, p, w = _multinomial_loss(w, X, Y, alpha, sample_weight)
     sample_weight = sample_weight[:, np.newaxis]
     diff = sample_weight * (p - Y)
-- 
2.43.0


From 408640ea224b00a3f88f55a4cd2127b4382b70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 41/46] fix: dissimilarity of NMF bases is defined when a basis
 is zero

---
 src/pyuoi/decomposition/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 4109768..58324a9 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -113,8 +114,9 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = H1 / np.linalg.norm(H1, axis=1, keepdims=True)
-    H2 = H2 / np.linalg.norm(H2, axis=1, keepdims=True)
+    # a basis that is zero remains so, and resembles no other
+    H1 = normalize(H1, norm='l2', axis=1)
+    H2 = normalize(H2, norm='l2', axis=1)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From e965d659198ccbe7f5350d0373152fe99604b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 42/46] fix: UoI_Poisson refuses several response columns
 before fitting

---
 src/pyuoi/linear_model/poisson.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index d799f16..ab65c9c 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -628,10 +628,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         if self.standardize:
             self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
-        if y.ndim == 2:
-            self.output_dim = y.shape[1]
-        else:
-            self.output_dim = 1
+        if y.ndim == 2 and y.shape[1] > 1:
+            raise ValueError('y should have shape (n_samples, ).')
+        self.output_dim = 1
         return X, y
 
     def _post_fit(self, X, y):
-- 
2.43.0


From 9998056de3ab528da2aa0afd5fead935a89a54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 43/46] fix: an infinite stability selection of UoI_CUR is out
 of bounds

---
 src/pyuoi/decomposition/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 58324a9..8b1d92d 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -77,7 +77,7 @@ def stability_selection_to_threshold(stability_selection, n_boots):
     # float, indicating proportion of bootstraps
     if isinstance(stability_selection, float):
         # round first, as e.g. 0.29 * 100 is slightly less than 29
-        selection_threshold = int(round(stability_selection * n_boots, 8))
+        selection_threshold = np.floor(round(stability_selection * n_boots, 8))
 
     # int, indicating number of bootstraps
     elif isinstance(stability_selection, int):
@@ -94,7 +94,7 @@ def stability_selection_to_threshold(stability_selection, n_boots):
         raise ValueError("Stability selection thresholds must be within "
                          "the correct bounds.")
 
-    return selection_threshold
+    return int(selection_threshold)
 
 
 def dissimilarity(H1, H2):
-- 
2.43.0


From 0386d656c4b9b9a4de87363cd90913a1885e9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 44/46] fix: UoI_Poisson refuses the accuracy before fitting

---
 src/pyuoi/linear_model/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index ab65c9c..3c709b4 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -630,6 +630,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2 and y.shape[1] > 1:
             raise ValueError('y should have shape (n_samples, ).')
+        if self.estimation_score == 'acc':
+            raise ValueError('acc is not a valid metric.')
         self.output_dim = 1
         return X, y
 
-- 
2.43.0


From bd67f1971f08d7c114e6299e440dfbd3de2e8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 45/46] fix: coordinate descent of Poisson does not overflow
 with small integer types

---
 src/pyuoi/linear_model/poisson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3c709b4..69b323b 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -306,7 +306,8 @@ class Poisson(BaseEstimator):
             x = X[:, idx]
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
-            den_update = np.dot(w, x**2) / n_samples
+            # (in floating point: squares of small integer types overflow)
+            den_update = np.dot(w, np.square(x, dtype=float)) / n_samples
             den_update += self.alpha * (1 - self.l1_ratio)
             # replace coefficients sequentially; a feature which is zero in
             # every sample has no effect and no coefficient
-- 
2.43.0


From d8206d4225c229104a75f924e368b58921e8dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:36 +0000
Subject: [PATCH 46/46] fix: the intercept of a logistic model is calibrated
 when outliers are misclassified

---
 src/pyuoi/linear_model/logistic.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 35edbd5..2584612 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -2,7 +2,6 @@ import numbers, warnings
 
 from sklearn.linear_model import LogisticRegression
 from sklearn.preprocessing import LabelEncoder, OneHotEncoder
-from sklearn.metrics import log_loss
 from sklearn.exceptions import ConvergenceWarning
 from sklearn.utils import (check_X_y, compute_class_weight,
                            check_consistent_length, check_array)
@@ -215,9 +214,12 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     """Optimize the likelihood w.r.t. the intercept for a logistic model."""
     if output_dim == 1:
         def f_df(intercept):
-            py = sigmoid(X.dot(coef_.T) + intercept)
+            z = X.dot(coef_.T) + intercept
+            py = sigmoid(z)
             dfdb = py.mean() - y.mean()
-            return log_loss(y, py, labels=[0, 1]), np.atleast_1d(dfdb)
+            # (log_loss clips the probabilities)
+            loss = (np.logaddexp(0, z) - y * z).mean()
+            return loss, np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
@@ -225,7 +227,8 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     else:
         def f_df(short_intercept):
             intercept = np.concatenate([np.atleast_1d(1.), short_intercept])
-            py = softmax(X.dot(coef_.T) + intercept)
+            z = X.dot(coef_.T) + intercept
+            py = softmax(z)
 
             def dlogpi_dintk(ii, pyi):
                 if ii == 0:
@@ -238,7 +241,9 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
             dfdb = np.zeros_like(short_intercept)
             for yi, pyi in zip(y, py):
                 dfdb -= dlogpi_dintk(yi, pyi) / y.size
-            return log_loss(y, py, labels=np.arange(output_dim)), dfdb
+            # (log_loss clips the probabilities)
+            loss = (logsumexp(z, axis=1) - z[np.arange(y.size), y]).mean()
+            return loss, dfdb
         opt = minimize(f_df, np.atleast_1d(np.zeros(output_dim - 1)),
                        method='L-BFGS-B', jac=True)
         intercept = np.concatenate([np.atleast_1d(1.), opt.x])
-- 
2.43.0

