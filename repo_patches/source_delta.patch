From 15f3dcb127ca91855fc7967c3050ddf4b8a92663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 01/89] fix: wrapping uses the fitted location and scale of a
 Wrapper, and unit scale when the scale is zero

---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..d933ad9 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(np.asarray(scaleX, dtype="float64"))
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From 716ddf03104b1749c69a5181cf17cde00fdcaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 02/89] fix: l1median accepts the documented starting point x0

---
 src/direpack/preprocessing/_preproc_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index d933ad9..655a523 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -182,7 +182,8 @@ def l1median(X, **kwargs):
     optimization options will crash when provided matrix input.
     """
 
-    if "x0" not in kwargs:
+    x0 = kwargs.pop("x0", None)
+    if x0 is None:
         x0 = median(X)
 
     if type(X) == np.matrix:
-- 
2.43.0


From 99c2a85133d553105f54de8d752cdd4dc37d041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 03/89] fix: gen_ss_pp accepts the documented center='None'

---
 src/direpack/preprocessing/gsspp.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..5f8a4a1 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
-- 
2.43.0


From de6d6c5fa91d3fdbbcfbc337ca2e9772ca34eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 04/89] fix: gen_ss_covmat returns the p x p covariance matrix
 and accepts radial function names

---
 src/direpack/preprocessing/gsspp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 5f8a4a1..c617800 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -144,12 +144,14 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     Outputs: the generalized spatial sign covariance matrix
     """    
     
+    if type(fun) is str: 
+        fun = eval(fun)
     X = _check_input(X)  
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From f8f5432a97cce89dc1533013d7c93de3f1db1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 05/89] fix: VersatileScaler.inverse_transform undoes transform
 for zero scale columns

---
 src/direpack/preprocessing/robcent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..3a1ae96 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,9 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return (
+            np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
+        )
 
 
 # For backwards compatibility
-- 
2.43.0


From 7165bf40375c2a3b40dd2d14a78d13bb1af84045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 06/89] fix: preprocessors fit in scikit-learn pipelines (fit
 returns self and ignores y)

---
 src/direpack/preprocessing/gsspp.py   |  5 +++--
 src/direpack/preprocessing/robcent.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index c617800..6360749 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -49,7 +49,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         self.center = center
         self.fun = fun 
         
-    def fit(self,X): 
+    def fit(self,X,y=None): 
         
         """ 
         Calculate and store generalized spatial signs
@@ -67,6 +67,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'gss_',gss_)
         setattr(self,'Xm_',Xm)
         setattr(self,'centring_',vs)
+        return(self)
         
     def transform(self,X):
         
@@ -79,7 +80,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-    def fit_transform(self,X): 
+    def fit_transform(self,X,y=None): 
 
         self.fit(X)
         self.transform(X)
diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 3a1ae96..2df7f8a 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -105,7 +105,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = scale
         self.trimming = trimming
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -152,6 +152,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Center and/or scale training data to pre-estimated location and scale
@@ -177,7 +179,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xns
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data and scale these data
         """
@@ -248,7 +250,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = "mad"
         self.trimming = 0
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -295,6 +297,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Project data points to their wrapped counterparts
@@ -320,7 +324,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xnw
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data wrap these data
         """
-- 
2.43.0


From a625195656bc6c7b6998a49395cbd1f037b0a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 07/89] fix: scalers transform a single case of multivariate
 data as one row

---
 src/direpack/preprocessing/robcent.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 2df7f8a..47146eb 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -67,6 +67,17 @@ from ._preproc_utilities import (
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
 
+def _as_fitted_rows(X, m):
+    """
+    Undo the conversion of a single case into a column by _check_input
+    """
+
+    p = np.size(m)
+    if p > 1 and X.shape == (p, 1):
+        X = X.reshape((1, p))
+    return X
+
+
 class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
     """
@@ -159,8 +170,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _as_fitted_rows(_check_input(X), self.center_)
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -173,7 +184,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _as_fitted_rows(_check_input(Xn), self.col_loc_)
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -196,7 +207,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _as_fitted_rows(_check_input(Xs), self.center_)
         else:
             Xs = self.datas_
 
@@ -304,8 +315,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _as_fitted_rows(_check_input(X), self.center_)
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -318,7 +329,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _as_fitted_rows(_check_input(Xn), self.col_loc_)
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
-- 
2.43.0


From 609c828911e1299ec671368603b8dcf614a3bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 08/89] fix: Huber and Hampel weights leave their argument
 alone and are right for cutoffs below one

---
 src/direpack/sprm/_m_support_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..a993850 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,13 +15,14 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    wx = np.array(x, dtype="float64")
+    wx[np.where(x <= probct)[0]] = 1
+    wx[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
+    wx = np.array(x, dtype="float64")
     wx[np.where(x <= probct)[0]] = 1
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
-- 
2.43.0


From eb5dc7f60f140bb2688800371018eec022b42747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 09/89] fix: robust_loss downweights large residuals of either
 sign

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..9a6037f 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -53,6 +53,6 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
     r = y - ypred
-    w = fun(r,probct,hampelb,hampelr)
+    w = fun(abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From 5f88be720af4feb2c677294c35e67b8959258981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 10/89] fix: rm starting response weights downweight low and
 high responses alike

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..9a72d76 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
-- 
2.43.0


From a65ae9ddc040a73b7e85fb6ef23e4a6b19a9a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 11/89] fix: rm fits with scale='None' and a robust centre

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9a72d76..3a60087 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -236,8 +236,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From 6af0284c8fa972e3e6e0383d9a26e92c1a631ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 12/89] fix: sprm fits with start_X_init other than 'pcapp' and
 specific starting cutoffs

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..ef2afe1 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -267,6 +267,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = scaling.fit_transform(Urc)
         else:
             Us = Xs
+            relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
         if [self.centre, self.scale] == ["median", "mad"]:
-- 
2.43.0


From 5e5311df55df85daffbad259e2877dec8ab88b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 13/89] fix: sprm and rm predict after fitting with copy=False

---
 src/direpack/sprm/rm.py   | 3 +++
 src/direpack/sprm/sprm.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3a60087..9b216de 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -92,6 +92,9 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index ef2afe1..8ef5d2d 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -159,6 +159,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (type(self.n_components) == int) | (self.n_components <= 0):
             raise MyException(
-- 
2.43.0


From 27ea83af0025d4aee4dfffca17a6b9c033d95510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 14/89] fix: sprm.weightnewx leaves the fitted model alone

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 8ef5d2d..01d31dd 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -521,7 +521,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Tn = self.transform(Xn)
-        scaling = self.scalingt_
+        scaling = copy.deepcopy(self.scalingt_)
         scalet = self.scale
         if scalet == "None":
             scaling.set_params(scale="mad")
-- 
2.43.0


From 5c0232cfd7f167e893688f563564db002cb13ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 15/89] fix: sprm and rm run up to maxit iterations, so maxit=1
 fits

---
 src/direpack/sprm/rm.py   | 2 +-
 src/direpack/sprm/sprm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9b216de..20108ee 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -177,7 +177,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         rold = 1e-5
         difference = 1
 
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             b = np.linalg.lstsq(Xw, yw, rcond=None)
             b = np.array(b[0]).reshape(-1, 1)
             yp = np.dot(Xs, b).reshape(-1)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 01d31dd..8ee3346 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -329,7 +329,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             "None",
             self.copy,
         )
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             res_snipls.fit(Xw, yw)
             T = np.divide(res_snipls.x_scores_,
                           WEmat[:, 0: (self.n_components)])
-- 
2.43.0


From 4ec91630e8f6c66c91aa0f7077061eb24cdaaa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 16/89] fix: sprm and snipls fit without rewriting their
 columns and scale parameters

---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 36 +++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..5bf9ee3 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 8ee3346..5e5f847 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -192,31 +192,33 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -232,10 +234,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -250,8 +252,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -273,7 +275,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -324,7 +326,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -340,7 +342,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -418,7 +420,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From 15c5c8b22fe633104a66d752d6913f3fb722eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 17/89] fix: sprm and rm scaled intercept is the centre of the
 scaled residuals

---
 src/direpack/sprm/rm.py   | 5 ++++-
 src/direpack/sprm/sprm.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 20108ee..8dc1572 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -236,7 +236,10 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                 b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    np.array(
+                        ys.astype("float64")
+                        - np.matmul(Xs.astype("float64"), b).reshape(-1)
+                    )
                 )
         else:
             ytil = np.array(np.matmul(X, b)).reshape(-1)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 5e5f847..39d2a86 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -427,7 +427,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             else:
                 b0 = np.median(
                     np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From 8c718956ebbc1f18dec75d6a04ad5ef5a6130a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 18/89] fix: rm, snipls and sprm rescale coefficients with the
 scales the data were divided by

---
 src/direpack/sprm/rm.py     |  8 +++++++-
 src/direpack/sprm/snipls.py |  9 +++++++--
 src/direpack/sprm/sprm.py   | 10 ++++++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 8dc1572..4e4fa04 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -21,6 +21,7 @@ import numpy as np
 import pandas as ps
 from scipy.stats import norm, chi2
 from ..preprocessing.robcent import VersatileScaler
+from ..preprocessing._preproc_utilities import _handle_zeros_in_scale
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
 
@@ -224,7 +225,12 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         Xrw = np.array(np.multiply(Xs, np.sqrt(WEmat)).astype("float64"))
         scaling.set_params(scale="None")
         Xrw = scaling.fit_transform(Xrw)
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(
+            np.reshape(
+                _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX), (p, 1)
+            ),
+            b,
+        )
         yp_rescaled = np.matmul(X, b_rescaled).reshape(-1)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled)
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 5bf9ee3..40ab946 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -12,7 +12,7 @@ import numpy as np
 import pandas as ps
 from ..preprocessing.robcent import VersatileScaler
 from ..utils.utils import MyException, _predict_check_input, _check_input, nandot, nanmatdot
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 
 
 class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -248,7 +248,12 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             R = B
             T = np.empty((n, self.n_components))
             T.fill(0)
-        B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
+        B_rescaled = np.multiply(
+            np.array(
+                _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX)
+            ).reshape((p, 1)),
+            B,
+        )
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
             intercept = np.nanmean(y - yp_rescaled)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 39d2a86..1d92675 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -11,7 +11,11 @@ from ..preprocessing.robcent import VersatileScaler
 from .snipls import snipls
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
-from ..preprocessing._preproc_utilities import scale_data, mad
+from ..preprocessing._preproc_utilities import (
+    scale_data,
+    mad,
+    _handle_zeros_in_scale,
+)
 
 
 class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -410,7 +414,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 + str(res_snipls.colret_)
                 + "\n"
             )
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(
+            np.reshape(_handle_zeros_in_scale(sy) / sX, (p, 1)), b
+        )
         yp_rescaled = np.matmul(X, b_rescaled)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled, axis=0)
-- 
2.43.0


From 9dd29303ae26836f4a52aa7e03fc6a4da3b373f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 19/89] fix: dicomo.fit leaves its center parameter alone

---
 src/direpack/dicomo/dicomo.py | 49 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..0acad07 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -227,9 +228,9 @@ class dicomo(_BaseComposition,BaseEstimator):
             
             # Variance
             if mode!='com':
-#                if self.center=='mean':
+#                if center=='mean':
 #                    xvar = trimvar(x,trimming)*ntrim/(ntrim-1)
-#                elif self.center=='median':
+#                elif center=='median':
 #                    xvar = srs.mad(x)**2
                 xmom = trim_mom(x,x,locest,order,trimming,option,biascorr) 
                 self.x_moment_ = xmom
@@ -288,10 +289,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 if mode in ['corr','continuum']:
                     
-#                    if self.center=='mean':
+#                    if center=='mean':
 #                        yvar = trimvar(y,trimming)*ntrim/(ntrim-1)
 #                    
-#                    elif self.center=='median':
+#                    elif center=='median':
 #                        yvar = srs.mad(y)
                     ymom = trim_mom(y,y,locest,order,trimming,option,biascorr)
                     
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 3cbaa07de25645aaca5011eedff16ae2e90f0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 20/89] fix: dicomo standard deviation is the root of the (bias
 corrected) variance

---
 src/direpack/dicomo/dicomo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 0acad07..f7436f4 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -237,7 +237,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 if self.mode in ('std','skew','kurt'):
                     x2mom = trim_mom(x,x,locest,2,trimming,option,False)
-                    xmom /= (x2mom**num_power) 
+                    if self.mode == 'std':
+                        xmom = xmom**num_power
+                    else:
+                        xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
                             xmom *= (ntrim-1)**2
-- 
2.43.0


From 62af8474b5a0138aa08a56d37d33b4d226d5f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 21/89] fix: dicomo bias correction of higher moments equals
 that of co-moments

---
 src/direpack/dicomo/dicomo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index f7436f4..2c3e5f0 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -251,6 +251,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                             if not Fisher:
                                 xmom += 3
                 
+                elif (biascorr and mode == 'mom' and center == 'mean' and (order > 2)):
+                    xmom *= ntrim
+                
                 if mode=='mom':
                     self.moment_ = xmom
             
@@ -274,7 +277,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 self.co_moment_ = como
                 
-                if (biascorr and (order > 2)):
+                if (biascorr and center == 'mean' and (order > 2)):
                     como *= ntrim
                 
                 if mode=='com':
-- 
2.43.0


From d863b144124eedf3c8b19873e0ac193da9502ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 22/89] fix: dicomo distance statistics accept one dimensional
 y in every calculation mode

---
 src/direpack/dicomo/dicomo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 2c3e5f0..cf8ccd6 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -324,6 +324,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     if (mode in ['mdd','mdc']):
                         como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
@@ -408,6 +410,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-- 
2.43.0


From 771bacdde4b68be4978d8b18b68a5a18a7640eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 23/89] fix: fast unbiased distance statistics agree with the
 naive ones for negative squared estimates

---
 src/direpack/dicomo/dicomo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index cf8ccd6..516c33e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -352,7 +352,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
-                        xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
+                        xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
                     self.moment_ = xmom
@@ -364,7 +364,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                         n1 = len(y)
                     
                     if biascorr:
-                        como = np.sqrt(dc.u_distance_covariance_sqr(x,y))
+                        como = np.sqrt(abs(dc.u_distance_covariance_sqr(x,y)))
                     else:
                         como = np.sqrt(dc.distance_covariance_sqr(x,y))
                     if mode=='com':
@@ -372,7 +372,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                     elif mode in ['corr','continuum','cos','cok']:
                         if biascorr:
-                            ymom = np.sqrt(dc.u_distance_covariance_sqr(y,y))
+                            ymom = np.sqrt(abs(dc.u_distance_covariance_sqr(y,y)))
                         else:
                             ymom = np.sqrt(dc.distance_covariance_sqr(y,y))
                         self.y_moment_ = ymom
-- 
2.43.0


From 52ed57c92b10c3ce0cde03c13b02d69af3e68f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 24/89] fix: fast distance standard deviation agrees with the
 naive one

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 516c33e..7ef8115 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -355,6 +355,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = xmom**num_power
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 97e3dde1af0deefb031cd06292eb8ad53ca438e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 25/89] fix: dicomo accepts the documented mode 'mdc'

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 7ef8115..0830a98 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -70,7 +70,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         self.est=est
         self.center=center
         self.liest = ['arithmetic','distance','sign','entropy']
-        self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','ballcov']
+        self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','mdc','ballcov']
         self.licenter = ['mean','median']
         if not(self.mode in self.limo):
             raise(MyException("Only models allowed are: 'mom','var','skew','kurt','com','cov','cos','cok','corr','continuum','M3','mdd','mdc','ballcov'"))
-- 
2.43.0


From 05b575b9c9f12df5e599cc7ebdac733113ba3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 26/89] fix: higher distance moments raise the distance
 matrices to the right power, in copies

---
 src/direpack/dicomo/_dicomo_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..8e7b217 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -298,14 +298,8 @@ def distance_moment(dmx,dmy,**kwargs):
         corr4bias = 1
         
     if order>2:
-        i = 1
-        while i < iter_stop_1:  
-            dmx *= dmx
-            i += 1
-        i = 1
-        while i < iter_stop_2:  
-            dmy *= dmy
-            i += 1
+        dmx = np.power(dmx,iter_stop_1)
+        dmy = np.power(dmy,iter_stop_2)
         
         
     if center=='mean':
-- 
2.43.0


From 8c6322df8dbd77525fbc42dcb7ede78f43a3c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 27/89] fix: MDDM accepts a single conditioning variable

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 8e7b217..b77b9fe 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -442,7 +442,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From 00b750cd5a507c705d0ea909f012fb66f0d2bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 28/89] fix: capi uses each listed co-moment option for the
 degrees it applies to

---
 src/direpack/ppdire/capi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..c1d081c 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -94,8 +94,7 @@ class capi(_BaseComposition, BaseEstimator):
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
             self.most.set_params(mode=order_kwargs[i - 2])
-            l = min(i - 1, len(options))
-            for j in options[np.arange(0, l)]:
+            for j in options[options < i]:
                 fit_arguments["option"] = j
                 moments[i - 3 + j + k] = self.most.fit(x, **fit_arguments)
             if i == 3:
-- 
2.43.0


From bc65f300e19abea53f89f9f00c44020cbfa5515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 29/89] fix: capi evaluates the index its current parameters
 name

---
 src/direpack/ppdire/capi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index c1d081c..5a884f8 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -66,6 +66,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.projection_index = projection_index
         self.pi_arguments = pi_arguments
         self.weights = weights
+        self.centring = centring
         self.most = self.projection_index(**self.pi_arguments)
         self.scaling = scaling
         self.options = options
@@ -86,6 +87,7 @@ class capi(_BaseComposition, BaseEstimator):
             options = np.arange(1, 4)
         else:
             options = np.array(self.options, ndmin=1)
+        self.most = self.projection_index(**self.pi_arguments)
         moments = np.zeros(6)
         fit_arguments = {"order": 0, "y": y}
         fit_arguments = {**kwargs, **fit_arguments}
-- 
2.43.0


From d44a3a682a4a0d1bae6a28d1d7274bcdcdfa6981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 30/89] fix: ppdire robust and quantile regression work with y
 passed by position

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..5681fc3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -251,34 +251,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             flag = 'two-block'
             y = kwargs.get('y')
                             
-            if 'quantile' not in kwargs:
-                quantile = .5
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From 1f4b587f6d9c98e9440e79bb2d58a4585c2b3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 31/89] fix: ppdire quantile regression is on the scaled
 response like the other regression options

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 5681fc3..f26eb4d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -676,7 +676,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From 12a2a8ba39324c6d2e0dcf416bb23310f972473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 32/89] fix: ppdire grid optimizer works for two variables

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index f26eb4d..d125825 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -447,6 +447,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if optmax != 1:
                 alphamat *= optmax
         
+            alphamat2 = alphamat
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
@@ -493,6 +494,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From 0fe77d992d7fd8bbdc57ef27f3687125b1ebd28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 33/89] fix: ppdire transform works for models fitted with
 center_data=False

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d125825..1f8b2bd 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -356,8 +356,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
-- 
2.43.0


From cab4dfa0edb58a4b9b6443972c7c5deba611a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 34/89] fix: ppdire intercept and fitted values after
 compression, and the fall back without it

---
 src/direpack/ppdire/ppdire.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 1f8b2bd..a86434d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -338,10 +338,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 warnings.warn('Due to low scales in data, compression would induce zero scales.' 
                               + '\n' + 'Proceeding without compression.')
                 dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
+                X = convert_X_input(X0)
+                n,p = X.shape
             else:
                 dimensions = True
         else:
@@ -699,15 +697,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,h-1].reshape((-1,1))
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
             else:
                 Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                mX = np.zeros(X0.shape[1])
+                sX = np.ones(X0.shape[1])
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From 1565018b8fccf3b55b9b52b3d675ebb773c7778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 35/89] fix: ppdire accepts y as a single column data frame

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index a86434d..057fcea 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -373,7 +373,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             
             ny = y.shape[0]
             y = convert_y_input(y)
-            if len(y.shape) < 2:
+            if len(y.shape) < 2 or y.shape == (1,ny):
                 y = np.array(y).reshape((ny,1))
 #            py = y.shape[1]
             if ny != n:
-- 
2.43.0


From 363e73b27da46dc1a8042790848600901380e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 36/89] fix: ppdire.fit leaves n_components alone when h is
 passed

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 057fcea..791d2ed 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From e95117842d89710b7eed41b3be417147036b24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 37/89] fix: ppdire.fit leaves the optimizer_options dictionary
 alone

---
 src/direpack/ppdire/ppdire.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 791d2ed..9dce9f4 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -422,8 +422,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            optimizer_options = {'ndir': 1000, **self.optimizer_options}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -432,7 +431,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -448,15 +447,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
-            opt_args['maxiter'] = self.optimizer_options['maxiter']
+            opt_args['ndir'] = optimizer_options['ndir'],
+            opt_args['maxiter'] = optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
             
@@ -464,7 +463,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
@@ -530,9 +529,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     objf = -1000
                     afinbest = afin
                     ii = 0
-                    maxiter_2j = 2**round(np.log2(self.optimizer_options['maxiter'])) 
+                    maxiter_2j = 2**round(np.log2(optimizer_options['maxiter'])) 
                 
-                    while ((ii < self.optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
+                    while ((ii < optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
                         for j in np.arange(0,p):
                             projmat = np.array([np.array(Zopt[:,0]).reshape(-1),
                                          np.array(Z[:,j]).reshape(-1)]).T
-- 
2.43.0


From e3dbb0140f4e052340376dcbb457ff521c188f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 38/89] fix: ppdire scaled intercept uses the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9dce9f4..ddf32ad 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -696,6 +696,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
             bi = B[:,h-1].reshape((-1,1))
+            bi_scaled = B_scaled[:,h-1].reshape((-1,1))
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
@@ -717,9 +718,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi_scaled))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi_scaled)))
             else:
                 b0 = intercept
             
-- 
2.43.0


From c28867edb4cfefe4fd481dfe00e2930e223eb87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 39/89] fix: ppdire rescales coefficients with the scales the
 data were divided by

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ddf32ad..189ca31 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -27,7 +27,7 @@ from ..dicomo.dicomo import dicomo
 from ..dicomo._dicomo_utils import * 
 from .capi import capi
 from ._ppdire_utils import *
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 from ..utils.utils import MyException, convert_X_input, convert_y_input
 import inspect
 from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
@@ -682,7 +682,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 C[i] = ci
                 bi = np.dot(R,C[0:(i+1)])
                 bi_scaled = bi
-                bi = np.multiply(np.reshape(sy/sX,(p,1)),bi)
+                bi = np.multiply(np.reshape(_handle_zeros_in_scale(sy)/_handle_zeros_in_scale(sX),(p,1)),bi)
                 B[:,i] = bi[:,0]
                 B_scaled[:,i] = bi_scaled[:,0]
 
-- 
2.43.0


From b4cd607c2cd652703b67ccb54586e7fa87570d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 40/89] fix: ppdire reports the explained variance of X per
 component

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 189ca31..293148a 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -657,6 +657,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 assovec[i] = criteval
                 
 
+            Xev[i] = nti**2 * np.sum(np.square(pi)) / np.sum(np.square(Xs)) * 100
+
             # Deflation of the datamatrix guaranteeing orthogonality restrictions
             E -= ti*pi.T
  
-- 
2.43.0


From 9296296918fd73fab77f01b7639f5171bfda130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 41/89] fix: ppdire fits whitened data with more than one
 variable

---
 src/direpack/ppdire/ppdire.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 293148a..8f4bc53 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -636,9 +636,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 Maxobjf[i] = self.most.fit(np.dot(E,wi),**opt_args)
             nti = np.linalg.norm(ti)
             pi = np.dot(E.T,ti) / (nti**2)
-            if self.whiten_data:
-                wi /= np.sqrt((wi**2).sum())
-                wi = K*wi
             wi0 = wi
             wi = np.array(wi)
             if len(W[:,i].shape) == 1:
@@ -690,6 +687,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
 
         # endfor; Loop for latent dimensions
 
+        # Re-adjust estimates to the centred data if data have been whitened
+        if self.whiten_data:
+            K0 = K*np.sqrt(p)
+            W = np.matmul(K0,W)
+            R = np.matmul(K0,R)
+            B = np.matmul(K0,B)
+            P = np.matmul(pinv(K0).T,P)
+            bi = B[:,h-1].reshape((-1,1))
+
         # Re-adjust estimates to original dimensions if data have been compressed 
         if dimensions:
             B = np.matmul(V[:,0:p],B)
-- 
2.43.0


From 93f0a8dbf841528cbb6602cac8b93bc5c420fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 42/89] fix: ppdire whitening leaves the preprocessing
 parameters alone

---
 src/direpack/ppdire/ppdire.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 8f4bc53..c5bf94f 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -311,14 +311,17 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        adjust_scale = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            adjust_scale = False
+            compression = False
             print('All results produced are for whitened data')
         
         # Centring and scaling
-        if self.scale_data:
+        if adjust_scale:
             if self.center=='mean':
                 scale = 'std'
             elif ((self.center=='median')|(self.center=='l1median')):
@@ -328,7 +331,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Without scaling, convergence to optima is not given')
             
          # Data Compression for flat tables if required                
-        if ((p>n) and self.compression):
+        if ((p>n) and compression):
             V,S,U = np.linalg.svd(X.T,full_matrices=False)
             X = np.matmul(U.T,np.diag(S))
             n,p = X.shape
@@ -347,7 +350,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Initiate centring object and scale X data 
         centring = VersatileScaler(center=self.center,scale=scale,trimming=trimming)      
   
-        if self.center_data:
+        if center_data:
             Xs = centring.fit_transform(X)
             mX = centring.col_loc_
             sX = centring.col_sca_
@@ -381,7 +384,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
                 
-            if self.center_data:
+            if center_data:
                 ys = centring.fit_transform(y)
                 my = centring.col_loc_
                 sy = centring.col_sca_ 
@@ -705,7 +708,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             P = np.matmul(V[:,0:p],P)
             bi = B[:,h-1].reshape((-1,1))
             bi_scaled = B_scaled[:,h-1].reshape((-1,1))
-            if self.center_data:
+            if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
-- 
2.43.0


From f29bf5bd291a44b9ff65ed8adb334898f3775b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 43/89] fix: SIR, SAVE and DR use every slice that holds data
 and no others

---
 src/direpack/sudire/_sudire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..7606d27 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -225,6 +225,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -289,6 +290,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -360,6 +362,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From b6b71e72b09d649bfbb23dab77ac6dd311d7b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 44/89] fix: sudire maps loadings back with the scales the data
 were divided by

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..3ab0909 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -326,6 +326,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
+                N2 = np.diag(1 / np.where(sX == 0, 1, sX))
             else:
                 raise (
                     MyException(
@@ -483,7 +484,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     self.optimizer_constraints = tuple(const_x)
             if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
                 self.optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From 1a4c48f2e47b05e04e3d08a2b0f69aefa8fdc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 45/89] fix: sudire passes the response type to the methods
 that start the optimizer

---
 src/direpack/sudire/sudire.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 3ab0909..28a6804 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -433,12 +433,24 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if self.optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    ys,
+                    3,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    ys,
+                    6,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     sir_start = np.matmul(N2, sir_start)
@@ -447,7 +459,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    y,
+                    6,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     DR_start = np.matmul(N2, DR_start)
-- 
2.43.0


From b44979a1222fbf37edc1345390b7e923b2b5de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 46/89] fix: sudire.fit leaves its optimizer parameters alone

---
 src/direpack/sudire/sudire.py | 52 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 28a6804..8858591 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -430,8 +430,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(self.X0, P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs,
                     ys,
@@ -472,13 +476,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -498,11 +502,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                self.optimizer_arguments = (
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -516,9 +520,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -532,12 +536,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -549,12 +553,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -566,12 +570,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From fb660cff2cb1b7e9359d6de5dc0f6a0db77cec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 47/89] fix: minimize_ipopt leaves the caller's options
 dictionary alone

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..914d690 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From 97f3deecd4aedb8655addbcf1117032118ab695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 48/89] fix: sudire fits with copy=False

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 8858591..9ab90e8 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -248,9 +248,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Initiate some parameters and data frames
         if self.copy:
             X0 = copy.deepcopy(X)
-            self.X0 = X0
         else:
             X0 = X
+        self.X0 = X0
         X = convert_X_input(X0)
         n, p = X0.shape
         trimming = self.trimming
-- 
2.43.0


From 22d9f0259ccf0cee76cfb966db6e827612163e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 49/89] fix: sudire fits data frames with center_data=False

---
 src/direpack/sudire/sudire.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 9ab90e8..ae55e22 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -310,9 +310,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 mX = trim_mean(X, self.trimming, axis=0)
                 sX = np.sqrt(np.diag(varmatx))
         else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
+            Xs = X
+            mX = np.zeros(p)
+            sX = np.ones(p)
         if self.scale_data:
             if self.center == "mean":
                 scale = "std"
-- 
2.43.0


From 82cb712219ac403fc1bf785e4a1dcb7e2fd17250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 50/89] fix: sudire accepts y as a single column data frame

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index ae55e22..a6edfb0 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -348,7 +348,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Pre-process y data
         ny = y.shape[0]
         y = convert_y_input(y)
-        if len(y.shape) < 2:
+        if len(y.shape) < 2 or y.shape[0] != ny:
             y = np.array(y).reshape((ny, 1))
         if ny != n:
             raise (MyException("X and y number of rows must agree"))
-- 
2.43.0


From a3be43a528d789a942b4aab3818290ca73efa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 51/89] fix: sudire predicts a single case with the intercept

---
 src/direpack/sudire/sudire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index a6edfb0..70ac441 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -587,7 +587,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
+        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
@@ -666,7 +666,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From bfefabeeb9af235cbfe62cae5b9e6470ef6e86aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 52/89] fix: sudire provides the documented y_loc_ and y_sca_

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 70ac441..ff1cac7 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -600,6 +600,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "whitening_", K)
         setattr(self, "x_loc_", mX)
         setattr(self, "x_sca_", sX)
+        if ys is not None:
+            setattr(self, "y_loc_", my)
+            setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
         if self.return_scaling_object and self.center != "mean":
-- 
2.43.0


From c0048f144b32f6e9451b167aed5cc9dff46be0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 53/89] fix: sudire loadings for whitened data apply to X, and
 whitening leaves the preprocessing parameters alone

---
 src/direpack/sudire/sudire.py | 76 +++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index ff1cac7..4cab191 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -263,10 +263,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        scale_data = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
@@ -274,7 +277,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
-        if (p > n) and self.compression:
+        if (p > n) and compression:
             V, S, U = np.linalg.svd(X.T, full_matrices=False)
             X = np.matmul(U.T, np.diag(S))
             n, p = X.shape
@@ -297,7 +300,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
             # Centring and scaling
             # centering :
-        if self.center_data:
+        if center_data:
             if self.center != "mean":
                 centring = VersatileScaler(
                     center=self.center, scale="None", trimming=self.trimming
@@ -313,7 +316,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = X
             mX = np.zeros(p)
             sX = np.ones(p)
-        if self.scale_data:
+        if scale_data:
             if self.center == "mean":
                 scale = "std"
                 N2 = inv(sqrtm(varmatx))
@@ -363,7 +366,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-            if self.center_data:
+            if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
                 sy = np.sqrt(np.var(y, axis=0))
@@ -381,10 +384,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -395,10 +398,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -409,22 +412,22 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -442,10 +445,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     3,
                     self.n_components,
                     self.response_type,
-                    self.center_data,
-                    self.scale_data,
+                    center_data,
+                    scale_data,
                 )
-                if self.scale_data:
+                if scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
                     Xs,
@@ -453,10 +456,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     6,
                     self.n_components,
                     self.response_type,
-                    self.center_data,
-                    self.scale_data,
+                    center_data,
+                    scale_data,
                 )
-                if self.scale_data:
+                if scale_data:
                     sir_start = np.matmul(N2, sir_start)
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
@@ -468,10 +471,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     6,
                     self.n_components,
                     self.response_type,
-                    self.center_data,
-                    self.scale_data,
+                    center_data,
+                    scale_data,
                 )
-                if self.scale_data:
+                if scale_data:
                     DR_start = np.matmul(N2, DR_start)
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
@@ -501,7 +504,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                                 "args": (Xs, self.n_components, i, j),
                             }
                         )
-                if self.scale_data:
+                if scale_data:
                     optimizer_constraints = tuple(const_z)
                 else:
                     optimizer_constraints = tuple(const_x)
@@ -525,7 +528,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
-            if self.scale_data:
+            if scale_data:
                 dcov_res = np.matmul(
                     N2, np.reshape(res.x, (-1, self.n_components), order="F")
                 )
@@ -544,7 +547,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
                     )
@@ -561,7 +564,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                     )
@@ -578,7 +581,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
                     )
@@ -586,6 +589,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
+        # Map the basis for whitened data back to the original variables
+        if self.whiten_data:
+            P = np.matmul(K, P) * np.sqrt(p)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
         # perform OLS regression
         T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
-- 
2.43.0


From 38fef776f25dce46c52d1e4050852a5a2da2bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:38 +0000
Subject: [PATCH 54/89] fix: sudire fits without centring or scaling when
 center is 'median'

---
 src/direpack/sudire/sudire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 4cab191..6ac7c80 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -613,7 +613,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (center_data or scale_data)
+        ):
             setattr(self, "scaling_object_", centring)
         return self
 
-- 
2.43.0


From 669e436c072bc7c6e74bc7f3ff03063288f2e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:38 +0000
Subject: [PATCH 55/89] fix: estimate_structural_dim resamples cases, not the
 rows of X alone

---
 src/direpack/sudire/sudire.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 6ac7c80..7443006 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -827,7 +827,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     else:
         center = kwargs.pop("center")
     Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
+    y = np.reshape(convert_y_input(y), -1)
     n, p = Xn.shape
 
     diff_b = []
@@ -848,6 +848,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
         for b in range(B):
             idx = np.random.randint(0, n, n)
             X_b = Xn[idx, :].copy()
+            y_b = y[idx].copy()
             sdr_b = sudire(
                 sudiremeth,
                 center_data=center_data,
@@ -856,7 +857,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y_b)
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From bd93212138eebd17c4734b4689369a6ce4170ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:38 +0000
Subject: [PATCH 56/89] fix: estimate_structural_dim averages the variability
 of each dimension on its own

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 7443006..f80969f 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -830,9 +830,9 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     y = np.reshape(convert_y_input(y), -1)
     n, p = Xn.shape
 
-    diff_b = []
     mean_diff = []
     for k in range(1, p + 1):
+        diff_b = []
         print("possible dim", k)
         sdr = sudire(
             sudiremeth,
-- 
2.43.0


From 65a5b400a2b929d95af52ccd8a062d37d09b6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:38 +0000
Subject: [PATCH 57/89] fix: estimate_structural_dim chooses among proper
 subspaces

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f80969f..25ba424 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -862,4 +862,5 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
         mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+    # the full space has no variability, whatever the data
+    return (np.argmin(mean_diff[: max(p - 1, 1)]) + 1, mean_diff)
-- 
2.43.0


From cfe8664c7ce247b8f2cd24f2a9011876c0dbbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:32 +0000
Subject: [PATCH 58/89] fix: plots annotate every named case, the last one
 included

---
 src/direpack/plot/ppdire_plot.py |  8 ++++----
 src/direpack/plot/sprm_plot.py   | 12 ++++++------
 src/direpack/plot/sudire_plot.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..b61f2ad 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -93,10 +93,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -143,10 +143,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..d4581aa 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (name_indices[i+1],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..ac39ebb 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -93,10 +93,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -141,10 +141,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
-- 
2.43.0


From 09856c8bb75f92d73e2364acabb0d56ba85b61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:32 +0000
Subject: [PATCH 59/89] fix: plot_caseweights puts each name at its own case

---
 src/direpack/plot/sprm_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d4581aa..99c5ade 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -326,7 +326,7 @@ class sprm_plot(sprm):
         if len(names)>0:
             if not(onlyval):
                 for i in range(0,len(names)):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
             for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
-- 
2.43.0


From 38913e5d78654f045126616bb9e691d189ba4b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:32 +0000
Subject: [PATCH 60/89] fix: plot_coeffs labels each truncated bar with its own
 variable

---
 src/direpack/plot/sprm_plot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 99c5ade..7200701 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -170,14 +170,13 @@ class sprm_plot(sprm):
        
         b_orig = np.array(getattr(self.res_sprm,entity)).reshape(-1)
         if truncation > 0:
-            ind_sort = np.argsort(np.argsort(b_orig))
-            b_sort = np.sort(b_orig)
+            ind_sort = np.argsort(b_orig)
             left = np.ceil(p*(truncation/2)).astype(int)
             right = (p-np.ceil(p*(truncation/2)).astype(int))
-            b_plot = b_sort[np.union1d(np.arange(0,left),
-                                       np.arange(right,p))]
-            x_labels = np.union1d(x_plot[ind_sort[0:left]],
-                                x_plot[ind_sort[right:p]])
+            ind_plot = ind_sort[np.union1d(np.arange(0,left),
+                                           np.arange(right,p))]
+            b_plot = b_orig[ind_plot]
+            x_labels = x_plot[ind_plot]
             x_plot = np.arange(0,len(x_labels))
             ax1.bar(x_plot,b_plot,color=self.colors[2],edgecolor=self.colors[4],tick_label=x_labels)
         else:
-- 
2.43.0


From aafe3113bf8735a719a2b32191416031bf793c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:32 +0000
Subject: [PATCH 61/89] fix: plot_coeffs accepts the documented lists and
 tuples of names

---
 src/direpack/plot/sprm_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 7200701..3c72da1 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -163,8 +163,8 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
-            x_plot = columns[self.res_sprm.non_zero_scale_vars_]
-            x_labels = columns[self.res_sprm.non_zero_scale_vars_]
+            x_plot = np.array(columns)[self.res_sprm.non_zero_scale_vars_]
+            x_labels = x_plot
         else:
             x_plot = np.arange(0,p)
        
-- 
2.43.0


From ab8738d7666252eb420486000af6eeb70ec47248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 62/89] fix: wrap_univ wraps distances as they are when scale
 is False

---
 src/direpack/preprocessing/_preproc_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 655a523..6a7a807 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -341,7 +341,8 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
         scaleX = _handle_zeros_in_scale(np.asarray(scaleX, dtype="float64"))
         xi = (dd - locX) / scaleX
     else:
-        xi = np.array(dd)
+        locX, scaleX = 0, 1
+        xi = np.array(dd, dtype="float64")
     indMid = np.where((np.abs(xi) < c) & (np.abs(xi) >= b))[0]
     indHigh = np.where(np.abs(xi) >= c)[0]
     xi[indMid] = (
-- 
2.43.0


From ceb6a407411846934c2c3fd28a806cafc25f8788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 63/89] fix: robust_loss works when y or the prediction is a
 pandas Series

---
 src/direpack/cross_validation/_cv_support_functions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 9a6037f..381a55a 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -46,12 +46,8 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         loss, float
     """            
     
-    if len(ypred.shape) > 1:
-        ypred = np.array(ypred).reshape(-1)
-    ypred = ypred.astype('float64')
-    if len(y.shape) > 1:
-        y = np.array(y).reshape(-1)
-    y = y.astype('float64')
+    ypred = np.array(ypred).reshape(-1).astype('float64')
+    y = np.array(y).reshape(-1).astype('float64')
     r = y - ypred
     w = fun(abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
-- 
2.43.0


From 998f0f6a6c7262aced5dfa6085515ce58aeb27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 64/89] fix: the grid search skips directions on which the
 index is undefined

---
 src/direpack/ppdire/_ppdire_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..4201639 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -94,7 +94,7 @@ def gridplane(X,most,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
         
-    maximo = np.max(meas)
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
@@ -179,7 +179,7 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
-    maximo = np.max(meas)
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From d2a5feceac55f2146c288ce98d453a5e0efc8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:32 +0000
Subject: [PATCH 65/89] fix: dicomo accepts data frames whatever their labels,
 as documented

---
 src/direpack/dicomo/dicomo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 0830a98..9946caa 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -206,6 +206,11 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             option = 0
             
+        # data frames carry labels pandas would align on
+        x = np.asarray(x,dtype='float64')
+        if kwargs.get('y') is not None:
+            kwargs['y'] = np.asarray(kwargs['y'],dtype='float64')
+
         n = len(x)
         ntrim = round(n * (1-trimming)) 
         
-- 
2.43.0


From 057b06613119b3fd237076128593b124c65c7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:21 +0000
Subject: [PATCH 66/89] fix: scaleTau2 accepts integer data

---
 src/direpack/preprocessing/_preproc_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 6a7a807..b136591 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -246,7 +246,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
         the scale estimate
     """
 
-    x = copy.deepcopy(x0)
+    x = np.array(x0, dtype="float64")
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
-- 
2.43.0


From a39a3cab726b96064e845d1c55a006706f5e8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:21 +0000
Subject: [PATCH 67/89] fix: scaling and wrapping new data with another number
 of columns is refused

---
 src/direpack/preprocessing/robcent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 47146eb..236b791 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -69,12 +69,15 @@ __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
 def _as_fitted_rows(X, m):
     """
-    Undo the conversion of a single case into a column by _check_input
+    Undo the conversion of a single case into a column by _check_input and
+    make sure the number of columns matches
     """
 
     p = np.size(m)
     if p > 1 and X.shape == (p, 1):
         X = X.reshape((1, p))
+    if X.shape[1] != p:
+        raise ValueError("Number of columns needs to match the fitted data")
     return X
 
 
-- 
2.43.0


From 9a344bb6b1fc81a3ff252053a9574781dfccab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:10 +0000
Subject: [PATCH 68/89] fix: deep parameters of estimators whose index is given
 as a class

get_params(deep=True) called get_params on the projection index class itself,
so that pipelines and grid searches holding such an estimator failed.
---
 src/direpack/ppdire/capi.py   | 2 +-
 src/direpack/ppdire/ppdire.py | 2 +-
 src/direpack/sudire/sudire.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 5a884f8..22eb2b7 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -154,7 +154,7 @@ class capi(_BaseComposition, BaseEstimator):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index c5bf94f..4025b13 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -860,7 +860,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, 'get_params'):
+            if deep and hasattr(value, 'get_params') and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + '__' + k, val) for k, val in deep_items)
             out[key] = value
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 25ba424..e4a74ef 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -732,7 +732,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
-- 
2.43.0


From fb1bc931edba90d979f44956c12af62681962fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 69/89] fix: plots of new cases pair responses given as a
 Series by position

A Series keeps its own index labels, so that plot_yyp selected and annotated
its values by label: wrong pairs, or a KeyError.
---
 src/direpack/plot/ppdire_plot.py | 3 +--
 src/direpack/plot/sprm_plot.py   | 3 +--
 src/direpack/plot/sudire_plot.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index b61f2ad..912fb99 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -75,8 +75,7 @@ class ppdire_plot(ppdire):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_ppdire.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
             labelvr = label + ' Test'   
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 3c72da1..eb3a5a2 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -109,8 +109,7 @@ class sprm_plot(sprm):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sprm.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
             wv = self.res_sprm.weightnewx(Xn)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index ac39ebb..e95e672 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -75,8 +75,7 @@ class sudire_plot(sudire):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sudire.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
                 
-- 
2.43.0


From 09a6ea546db8721f0ecafea3ee9d7458f3ac2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 70/89] fix: plots refuse onlyval without new cases and unknown
 weight modes

The ValueErrors were constructed but never raised.
---
 src/direpack/plot/ppdire_plot.py | 4 ++--
 src/direpack/plot/sprm_plot.py   | 8 ++++----
 src/direpack/plot/sudire_plot.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 912fb99..56d8c83 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -73,7 +73,7 @@ class ppdire_plot(ppdire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_ppdire.predict(Xn)
@@ -130,7 +130,7 @@ class ppdire_plot(ppdire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_ppdire.transform(Xn))
             labelvr = label + ' Test'  
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index eb3a5a2..3ca374e 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -107,7 +107,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sprm.predict(Xn)
@@ -229,7 +229,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sprm.transform(Xn))
             labelvr = label[0] + ' Test' + ' Regular'
@@ -299,13 +299,13 @@ class sprm_plot(sprm):
             elif mode == 'y':
                 wc = self.res_sprm.y_caseweights_
             else:
-                ValueError('Options for mode are overall, x or y')
+                raise ValueError('Options for mode are overall, x or y')
             labelc = label[0] + ' Training' 
         else:
             wc = []
             labelc=[]
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             wv = self.res_sprm.weightnewx(Xn)
             labelv = label[0] + ' Test'
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index e95e672..a5ee999 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -73,7 +73,7 @@ class sudire_plot(sudire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sudire.predict(Xn)
@@ -129,7 +129,7 @@ class sudire_plot(sudire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sudire.transform(Xn))
             ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-- 
2.43.0


From 520531a9af2d5666cf6e3387d231eee98f315572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 71/89] fix: snipls refuses sparsity and component numbers out
 of range when fitting

---
 src/direpack/sprm/snipls.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 40ab946..312a93f 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,6 +112,14 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
+        if self.eta < 0 or self.eta >= 1:
+            raise (MyException("eta needs to be in [0,1)"))
+        if self.n_components < 1 or self.n_components > min(X.shape):
+            raise (
+                MyException(
+                    "Number of components needs to be between one and the number of cases or variables"
+                )
+            )
         columns = self.columns
         if type(columns) is list:
             columns = np.array(columns)
-- 
2.43.0


From 2ec90de3a83b0affa425d8fd411c569d36abce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 72/89] fix: dicomo refuses unknown settings made after
 construction

---
 src/direpack/dicomo/dicomo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 9946caa..31d3f25 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -111,6 +111,11 @@ class dicomo(_BaseComposition,BaseEstimator):
         """
         
         
+        if self.est not in self.liest or self.mode not in self.limo or self.center not in self.licenter:
+            raise(MyException('Unknown setting for est, mode or center'))
+        if (self.est=='arithmetic' and self.mode in ['mdd','mdc']):
+            raise(MyException('MDD only defined when est="distance"'))
+
         if 'trimming' not in kwargs:
             trimming = 0
         else:
-- 
2.43.0


From 9efe7f8c047aa7d2d43774c1dc460de313ba3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 73/89] fix: sudire refuses a number of components below one

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index e4a74ef..50bd717 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -262,6 +262,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     "number of components cannot exceed number of variables or sample size"
                 )
             )
+        if self.n_components < 1:
+            raise (MyException("number of components has to be positive"))
         # Pre-processing adjustment if whitening
         center_data = self.center_data
         scale_data = self.scale_data
-- 
2.43.0


From 2b98afca69563c3fb8fa4f6d838e68aa8156781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 74/89] fix: sudire refuses unknown response types and
 impossible numbers of slices

---
 src/direpack/sudire/sudire.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 50bd717..73962c5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -264,6 +264,16 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
         if self.n_components < 1:
             raise (MyException("number of components has to be positive"))
+        if self.response_type not in ("continuous", "discrete"):
+            raise (ValueError('response_type has to be "continuous" or "discrete"'))
+        if (
+            self.sudiremeth in ("sir", "save", "dr")
+            and self.response_type == "continuous"
+            and not 2 <= self.n_slices <= n
+        ):
+            raise (
+                ValueError("n_slices has to be between two and the number of cases")
+            )
         # Pre-processing adjustment if whitening
         center_data = self.center_data
         scale_data = self.scale_data
-- 
2.43.0


From fa0e6b92ea2acb86f139fbb304e7721d695f2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 75/89] fix: ppdire refuses a number of components below one

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 4025b13..805d9cc 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -306,6 +306,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Check dimensions 
         if h > min(n,p):
             raise(MyException('number of components cannot exceed number of samples'))
+        if h < 1:
+            raise(MyException('number of components has to be positive'))
             
         if (self.projection_index == dicomo and self.pi_arguments['mode'] == 'kurt' and self.whiten_data==False):
             warnings.warn('Whitening step is recommended for ICA')
-- 
2.43.0


From cf056ee2b4c6cf9ca7682563f92086bee19f9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:38 +0000
Subject: [PATCH 76/89] fix: unbiased trimmed distance covariance uses the
 trimmed sample size throughout

---
 src/direpack/dicomo/dicomo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 31d3f25..56bab31 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -417,10 +417,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please supply second data vector'))
                     else:
                         y = kwargs.get('y')
-                        n1 = len(y)
-                    if n1==0:
+                        ny = len(y)
+                    if ny==0:
                         raise(MyException('Please feed data with length > 0'))
-                    if n1!=n:
+                    if ny!=n:
                         raise(MyException('Please feed x and y data of equal length'))
                     if len(y.shape)==1:
                         y = np.array(y).reshape((n,1))
@@ -445,7 +445,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n2,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 727c77e42e691e33413b47484c30afd97e1c3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:01 +0000
Subject: [PATCH 77/89] fix: naive distance standard deviation of data without
 variation is zero

---
 src/direpack/dicomo/dicomo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 56bab31..94d5fac 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -404,7 +404,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                         
                     self.x_moment_ = xmom
                     
-                    if self.mode in ('std','skew','kurt'):
+                    if self.mode == 'std':
+                        xmom = xmom**num_power
+                    elif self.mode in ('skew','kurt'):
                         x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
-- 
2.43.0


From 9097c46ad9e0671cbcc770b67ff30b59c4366633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:02 +0000
Subject: [PATCH 78/89] fix: sudire takes the root of the covariance matrix
 only where it is used

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 73962c5..0da9f75 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -286,7 +286,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
         meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
         if (p > n) and compression:
@@ -521,6 +520,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     optimizer_constraints = tuple(const_x)
             if optimizer_arguments is None:
+                if not scale_data:
+                    N2 = inv(sqrtm(varmatx))
                 optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From 774721af3937f4378346935c92127965e2958602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 79/89] fix: ppdire hands the fit settings dmetric and option
 on to the projection index

---
 src/direpack/ppdire/ppdire.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 805d9cc..9209e9a 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -422,8 +422,11 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'alpha': self.alpha,
                     'trimming': self.trimming,
                     'biascorr': biascorr, 
-                    'dmetric' : 'euclidean',
+                    'dmetric' : dmetric,
                     }
+        if (self.projection_index == dicomo 
+            and self.pi_arguments['mode'] in ('M3','cos','cok')):
+            opt_args['option'] = option
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
@@ -471,7 +474,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
-                     'dmetric' : 'euclidean',
+                     'dmetric' : dmetric,
                      '_stop0c' : stop0c,
                      '_stop0s' : stop0s,
                      '_stop1c' : stop1c,
@@ -480,6 +483,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'optrange' : self.optrange,
                      'square_pi' : self.square_pi
                      }
+            if 'option' in opt_args:
+                grid_args_2['option'] = option
             if flag=='two-block':
                 grid_args_2['y'] = f
         
-- 
2.43.0


From e7ea2f6d791d3a9c4e34927dafcc80b8841958b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:20 +0000
Subject: [PATCH 80/89] fix: dicomo honours dmetric in the fast distance
 statistics and in the martingale difference divergence

---
 src/direpack/dicomo/_dicomo_utils.py | 4 ++--
 src/direpack/dicomo/dicomo.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index b77b9fe..d7d6a7d 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -353,8 +353,8 @@ def difference_divergence(X,Y,**kwargs):
     
     
     
-    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center)  
-    dy=  spp.distance.squareform(spp.distance.pdist(Y.reshape(-1, 1),metric=dmetric)**2)
+    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center,dmetric=dmetric)  
+    dy=  spp.distance.squareform(spp.distance.pdist(Y.reshape(-1, 1))**2)
     B,Bdim = double_center_flex(0.5*dy,biascorr=biascorr,trimming=trimming,center=center)
     if biascorr:
         return(U_inner(A,B,trimming))
diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 94d5fac..a7cc1f4 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -337,13 +337,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if len(y.shape)==1:
                         y = np.array(y).reshape((n,1))
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -359,7 +359,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2 and dmetric == 'euclidean'):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
-- 
2.43.0


From 251151ff2d6a892e2a05ea5cdb33fe04c0881a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 81/89] fix: sudire uses its dmetric setting, also for the
 martingale difference divergence

---
 src/direpack/sudire/_sudire_utils.py | 14 ++++++++++++--
 src/direpack/sudire/sudire.py        |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 7606d27..233dea6 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -48,7 +48,12 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X_coord, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat,
+                Y,
+                center=center,
+                trimming=trimming,
+                biascorr=biascorr,
+                dmetric=dmetric,
             )
         )
         return -10 * res
@@ -56,7 +61,12 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat,
+                Y,
+                center=center,
+                trimming=trimming,
+                biascorr=biascorr,
+                dmetric=dmetric,
             )
         )
         return -10 * res
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 0da9f75..101aa92 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -230,7 +230,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From 1095ae7f7c6e84b7329ccf11b53db777006f73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:36 +0000
Subject: [PATCH 82/89] fix: a one-block refit of ppdire forgets the regression
 of an earlier two-block fit

---
 src/direpack/ppdire/ppdire.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9209e9a..ea95fcb 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -290,6 +290,13 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 if option > 3:
                     print('Option value >3 will compute results, but meaning may be questionable')
                 
+        # A refit does not keep results only provided by an earlier, different fit
+        for att in ('coef_','intercept_','coef_scaled_','intercept_scaled_',
+                    'residuals_','fitted_','y_loadings_','y_loc_','y_sca_',
+                    'whitening_','mixing_','scaling_object_'):
+            if hasattr(self,att):
+                delattr(self,att)
+
         # Initiate projection index    
         self.most = self.projection_index(**self.pi_arguments)         
         
-- 
2.43.0


From 2b2f4fd644e4937b772578ac4aceafbb02e21250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:36 +0000
Subject: [PATCH 83/89] fix: sudire fits no regression when fit_ols is False

---
 src/direpack/sudire/sudire.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 101aa92..5fa9b56 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -608,8 +608,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
+        ols_obj = None
+        if self.fit_ols:
+            T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
+            ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
         if dimensions:
@@ -693,6 +695,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     "New data must have same number of columns as the ones the model has been trained with"
                 )
             )
+        if self.ols_obj_ is None:
+            raise (MyException("predictions need a model fitted with fit_ols=True"))
         Xns = self.transform(Xn)
         Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
-- 
2.43.0


From ce297f15ebc8a6a5619ca2edb15cb04221e93a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 84/89] fix: regressors are recognised as regressors by
 scikit-learn (order of base classes)

---
 src/direpack/ppdire/ppdire.py | 2 +-
 src/direpack/sprm/rm.py       | 2 +-
 src/direpack/sprm/snipls.py   | 2 +-
 src/direpack/sprm/sprm.py     | 2 +-
 src/direpack/sudire/sudire.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ea95fcb..8de02fe 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -36,7 +36,7 @@ from ..ipopt_temp.jacobian import (
     FunctionWithApproxJacobian,
 )
 
-class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
+class ppdire(RegressorMixin,TransformerMixin,_BaseComposition,BaseEstimator):
     
     """
     PPDIRE Projection Pursuit Dimension Reduction
diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4e4fa04..f35c324 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -26,7 +26,7 @@ from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
 
 
-class rm(_BaseComposition, BaseEstimator, RegressorMixin):
+class rm(RegressorMixin, _BaseComposition, BaseEstimator):
 
     """
     Robust M Regression 
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 312a93f..e2f191b 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -15,7 +15,7 @@ from ..utils.utils import MyException, _predict_check_input, _check_input, nando
 from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 
 
-class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+class snipls(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
     """
     SNIPLS Sparse Nipals Algorithm 
 
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 1d92675..2f35c7e 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -18,7 +18,7 @@ from ..preprocessing._preproc_utilities import (
 )
 
 
-class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+class sprm(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
 
     """
     SPRM Sparse Partial Robust M Regression 
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 5fa9b56..9335bd4 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -25,7 +25,7 @@ from ..dicomo._dicomo_utils import *
 from ..utils.utils import *
 
 
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+class sudire(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
 
     """SUDIRE Sufficient Dimension Reduction 
     
-- 
2.43.0


From d1f2ef1b94df48e6b59d2d212cf1fb408c390b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 85/89] fix: a refit of sudire forgets whitening and scaling
 object of an earlier fit

---
 src/direpack/sudire/sudire.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 9335bd4..331ad71 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -245,6 +245,10 @@ class sudire(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
             is_distance_mat = False
         else:
             is_distance_mat = kwargs.pop("is_distance_mat")
+        # A refit does not keep results only provided by an earlier, different fit
+        for att in ("whitening_", "scaling_object_"):
+            if hasattr(self, att):
+                delattr(self, att)
         # Initiate some parameters and data frames
         if self.copy:
             X0 = copy.deepcopy(X)
-- 
2.43.0


From e68199b73021e9476ebe7a2b28eab9953461da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:12 +0000
Subject: [PATCH 86/89] fix: scaleTau2 divides by the number of cases that are
 not missing

---
 src/direpack/preprocessing/_preproc_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index b136591..4630eb7 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -250,6 +250,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
+        n = np.sum(np.logical_not(np.isnan(x)), axis=0)
     else:
         summ = np.sum
     medx = median(x)
-- 
2.43.0


From faebe087fb3f283a002c48d1132a565df112ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:20 +0000
Subject: [PATCH 87/89] fix: snipls reports zeros, not uninitialised memory,
 when no variable is retained

---
 src/direpack/sprm/snipls.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index e2f191b..8aad304 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -169,12 +169,12 @@ class snipls(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
             S = np.matmul(X0.T, X0)
             dot = np.dot
         s0 = dot(X0.T, y0)
-        T = np.empty((n, self.n_components), float)
-        W = np.empty((p, self.n_components), float)
-        P = np.empty((p, self.n_components), float)
-        C = np.empty((self.n_components, 1), float)
-        Xev = np.empty((self.n_components, 1), float)
-        yev = np.empty((self.n_components, 1), float)
+        T = np.zeros((n, self.n_components), float)
+        W = np.zeros((p, self.n_components), float)
+        P = np.zeros((p, self.n_components), float)
+        C = np.zeros((self.n_components, 1), float)
+        Xev = np.zeros((self.n_components, 1), float)
+        yev = np.zeros((self.n_components, 1), float)
         B = np.empty((p, 1), float)
         oldgoodies = np.array([])
         Xi = X0
@@ -253,9 +253,7 @@ class snipls(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
         else:
             B = np.empty((p, 1))
             B.fill(0)
-            R = B
-            T = np.empty((n, self.n_components))
-            T.fill(0)
+            R = np.zeros((p, self.n_components))
         B_rescaled = np.multiply(
             np.array(
                 _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX)
-- 
2.43.0


From e38d765f70020451e6ca068cec5e0c5da3a4f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:20 +0000
Subject: [PATCH 88/89] fix: sprm and snipls accept numpy numbers as settings
 and can be cloned with them

---
 src/direpack/sprm/snipls.py |  2 +-
 src/direpack/sprm/sprm.py   | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 8aad304..c62d132 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -89,7 +89,7 @@ class snipls(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
     ):
         assert eta >= 0 and eta < 1,  "eta needs to be in [0,1)"
         assert isinstance(
-            n_components, int) and n_components > 0, "number of components needs to be positive integer"
+            n_components, (int, np.integer)) and n_components > 0, "number of components needs to be positive integer"
         self.eta = eta
         self.n_components = n_components
         self.verbose = verbose
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 2f35c7e..5d52052 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -123,8 +123,11 @@ class sprm(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
         columns=False,
         copy=True,
     ):
-        self.n_components = int(n_components)
-        self.eta = float(eta)
+        # numbers are stored as given, such that estimators can be cloned
+        self.n_components = n_components if isinstance(
+            n_components, (int, np.integer)) else int(n_components)
+        self.eta = eta if isinstance(
+            eta, (float, np.floating)) else float(eta)
         self.fun = fun
         self.probp1 = probp1
         self.probp2 = probp2
@@ -167,14 +170,14 @@ class sprm(RegressorMixin, TransformerMixin, _BaseComposition, BaseEstimator):
             self.X = X
             self.y = y
         (n, p) = X.shape
-        if not (type(self.n_components) == int) | (self.n_components <= 0):
+        if not isinstance(self.n_components, (int, np.integer)) | (self.n_components <= 0):
             raise MyException(
                 "Number of components has to be a positive integer")
         if (self.n_components > n) | (self.n_components > p):
             raise MyException("The number of components is too large.")
         if self.n_components <= 0:
             raise MyException("The number of components has to be positive.")
-        if not (type(self.eta) == float):
+        if not isinstance(self.eta, (int, float, np.integer, np.floating)):
             raise MyException(
                 "Sparsity parameter eta has to be a floating point number"
             )
-- 
2.43.0


From 7b4648149a6cff68e650712b58b72ee6238ae86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 89/89] fix: the grid search prefers directions that carry
 scores over null projections

---
 src/direpack/ppdire/_ppdire_utils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 4201639..37de21b 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -21,6 +21,21 @@ def pp_objective(x,est,X,opt_args):
     x = np.array(x).reshape((n,1))
     return(-est.fit(np.matmul(X,x),**opt_args))
 
+def _skip_null_projections(meas,tj):
+
+    """
+    Directions onto which the (deflated) data project as zeros, up to rounding,
+    carry no scores: they are no candidates in a grid search.
+    """
+
+    meas = np.array(meas,dtype='float64').reshape(-1)
+    size = np.linalg.norm(tj,axis=0)
+    if size.max() > 0:
+        meas[size <= 1e-12*size.max()] = np.nan
+    return(meas)
+
+
+
 def gridplane(X,most,pi_arguments={},**kwargs):
 
     """
@@ -94,6 +109,7 @@ def gridplane(X,most,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
         
+    meas = _skip_null_projections(meas,tj)
     maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
@@ -179,6 +195,7 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
+    meas = _skip_null_projections(meas,tj)
     maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
-- 
2.43.0

