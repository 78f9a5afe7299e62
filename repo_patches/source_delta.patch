From 248671fc1d4f8c5b0ba85a41fba1d054ff94d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:58 +0000
Subject: [PATCH 01/45] fix: VersatileScaler.inverse_transform inverts
 transform for zero scale columns

transform() leaves columns whose scale estimate is zero undivided, but
inverse_transform() multiplied them by the raw zero scale.
---
 src/direpack/preprocessing/robcent.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..26d0d16 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        scale = _handle_zeros_in_scale(self.scale_)
+        return np.multiply(Xs, scale) + self.center_
 
 
 # For backwards compatibility
-- 
2.43.0


From 46d2dc7768b36c308b73f3ba17d198233e642aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 02/45] fix: wrapping uses the location and scale it is given

wrap_univ() re-estimated median and mad from its argument, so that
Wrapper.transform/predict ignored the estimates obtained by fit, and
returned NaN for columns with zero mad.
---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..39dd41d 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From 9a40dd09fabaad64d1bf0e7a8e3ba2fc2461888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 03/45] fix: gen_ss_covmat returns the p x p covariance matrix
 and accepts fun by name

The elementwise product failed (or returned a wrong matrix for n = p) on
arrays, and the documented str options for fun were not resolved.
---
 src/direpack/preprocessing/gsspp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..0154a89 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -147,12 +147,15 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     Outputs: the generalized spatial sign covariance matrix
     """    
     
+    if type(fun) is str: 
+        fun = eval(fun)
+
     X = _check_input(X)  
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From 5304208fdefda2901c6b1e5ff8ea49c6bc952d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 04/45] fix: gen_ss_pp accepts center='None'

center was evaluated to None before being compared to the string 'None',
so that the documented option raised a TypeError.
---
 src/direpack/preprocessing/gsspp.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 0154a89..2d082dd 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
-- 
2.43.0


From 42b239601762130f7abfcf55160f863ca6fd5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 05/45] fix: GenSpatialSignPreProcessor.transform transforms
 the data it is given

It returned the preprocessed training data whatever its argument.
---
 src/direpack/preprocessing/gsspp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 2d082dd..098719d 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -75,7 +75,13 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         """
         
         check_is_fitted(self,('gss_','Xm_'))
-        Xgss = np.multiply(self.Xm_,self.gss_)
+        X = _check_input(X)
+        n,p = X.shape
+        if type(self.fun) is str: 
+            fun = eval(self.fun)
+        else:
+            fun = self.fun
+        Xgss = _gsspp(self.centring_.predict(X),p,n,fun=fun)
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-- 
2.43.0


From 9471fd5d50f76b329b422c6a61d7129e63598bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:34 +0000
Subject: [PATCH 06/45] fix: Huber and Hampel weights do not overwrite their
 argument while computing

---
 src/direpack/sprm/_m_support_functions.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..8803f59 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,22 +15,21 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    wx = np.ones(np.shape(x))
+    high = x > probct
+    wx[high] = probct / abs(x[high])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
-    wx[np.where(x <= probct)[0]] = 1
-    wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
-        x[np.where((x > probct) & (x <= hampelb))[0]]
-    )
-    wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
-        probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
-        (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
+    wx = np.ones(np.shape(x))
+    mid = (x > probct) & (x <= hampelb)
+    wx[mid] = probct / abs(x[mid])
+    steep = (x > hampelb) & (x <= hampelr)
+    wx[steep] = np.divide(
+        probct * (hampelr - x[steep]), (hampelr - hampelb) * abs(x[steep])
     )
-    wx[np.where(x > hampelr)[0]] = 0
+    wx[x > hampelr] = 0
     return wx
 
 
-- 
2.43.0


From 522ee33287e1384f04cf081943504cc1e9224940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 07/45] fix: robust_loss weights residuals by their absolute
 value

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..9a6037f 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -53,6 +53,6 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
     r = y - ypred
-    w = fun(r,probct,hampelb,hampelr)
+    w = fun(abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From bed594175ca349912512cb257c12b99a7ba87548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 08/45] fix: nanmatdot returns the product, not its transpose

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..715e958 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -103,6 +103,6 @@ def nanmatdot(X, Y):
             return nandot(X, Y)
         else:
             product = [[np.nansum(np.multiply(X[i, :], Y[:, j]))
-                        for i in range(p)] for j in range(q)]
+                        for j in range(q)] for i in range(p)]
 
             return np.array(product)
-- 
2.43.0


From d0951679acdd040f4ac71b671f8c262ebde1aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 09/45] fix: rm fits with scale='None' and a robust centre;
 negative residuals are downweighted in the start

---
 src/direpack/sprm/rm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..3a60087 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
@@ -236,8 +236,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From 4991fe3612a24b9ff38c4817cc50ef80a1fad152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 10/45] fix: sprm accepts a start other than 'pcapp' with
 specific cutoffs

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..ef2afe1 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -267,6 +267,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = scaling.fit_transform(Urc)
         else:
             Us = Xs
+            relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
         if [self.centre, self.scale] == ["median", "mad"]:
-- 
2.43.0


From 27d1a7b989cf5779ca11a881dc99ef016697482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 11/45] fix: dicomo.fit does not overwrite the center parameter

---
 src/direpack/dicomo/dicomo.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..d7550b3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 0f89d36ee38436bfecdc09819fd415b18455dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 12/45] fix: distance_moment raises the distance matrices to
 the powers asked for and leaves them unchanged

---
 src/direpack/dicomo/_dicomo_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..8e7b217 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -298,14 +298,8 @@ def distance_moment(dmx,dmy,**kwargs):
         corr4bias = 1
         
     if order>2:
-        i = 1
-        while i < iter_stop_1:  
-            dmx *= dmx
-            i += 1
-        i = 1
-        while i < iter_stop_2:  
-            dmy *= dmy
-            i += 1
+        dmx = np.power(dmx,iter_stop_1)
+        dmy = np.power(dmy,iter_stop_2)
         
         
     if center=='mean':
-- 
2.43.0


From 537e75ef6a7e2c1ce2f5ea74cde00471175b50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 13/45] fix: dicomo standard deviation with bias correction is
 the root of the corrected variance

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d7550b3..1c15e16 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -236,7 +236,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 self.x_moment_ = xmom
                 
                 if self.mode in ('std','skew','kurt'):
-                    x2mom = trim_mom(x,x,locest,2,trimming,option,False)
+                    x2mom = trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode == 'std')
                     xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
-- 
2.43.0


From 33f9aab844e632afb5e539534118aaa63f4e9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 14/45] fix: dicomo distance co-moments accept a
 one-dimensional y without the fast algorithm

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 1c15e16..266dc64 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -402,6 +402,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-- 
2.43.0


From 380d4e68eb1a51c6bcfc463dc4318e07ee92e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 15/45] fix: dicomo distance standard deviation is the same for
 the fast and the naive algorithm

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 266dc64..87193d2 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -347,6 +347,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = xmom**num_power
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 47673bb65dcee799dd223cd25c1e6ac81dc98abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 16/45] fix: ppdire takes y positionally with robust and
 quantile regression

---
 src/direpack/ppdire/ppdire.py | 51 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..b5412b8 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -250,35 +250,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         else:
             flag = 'two-block'
             y = kwargs.get('y')
-                            
-            if 'quantile' not in kwargs:
-                quantile = .5
+
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From 6346c3917cd03be1e2b2a78357a402df4a811769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 17/45] fix: ppdire grid optimizer works for two variables

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b5412b8..2b74c13 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -446,6 +446,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if optmax != 1:
                 alphamat *= optmax
         
+            alphamat2 = None
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
@@ -492,6 +493,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From 9763e7f01d88b29cb1f5f458c5beb8edfc1a38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 18/45] fix: ppdire.transform without centring projects row by
 row

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 2b74c13..9c40c35 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -355,8 +355,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
-- 
2.43.0


From 646563d5a817a6b8330298d6f9a4a4dfc2201f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 19/45] fix: ppdire does not write into the optimizer options
 it is given

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9c40c35..c11c903 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -425,7 +425,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         if self.optimizer=='grid':
             # Define grid optimization ranges
             if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+                self.optimizer_options = {**self.optimizer_options,'ndir':1000}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
-- 
2.43.0


From 7cedf0b7dfd61fd91587e67e2a47ffecce996d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 20/45] fix: ppdire fitted values and residuals of compressed
 data have one column

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index c11c903..9151698 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -698,7 +698,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,h-1].reshape(-1,1)
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
-- 
2.43.0


From 6e371ca59d967f477d51ad04d179f40e0cc429a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 21/45] fix: sudire fits with copy=False

---
 src/direpack/sudire/sudire.py | 1654 ++++++++++++++++-----------------
 1 file changed, 827 insertions(+), 827 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..79bd973 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,827 +1,827 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = "euclidean"
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-            self.X0 = X0
-        else:
-            X0 = X
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
-                else:
-                    self.optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if self.optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
-                else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = "euclidean"
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+        else:
+            X0 = X
+        self.X0 = X0
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X0
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            ## choose starting value for DCOV-SDR
+            if self.optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    self.optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    self.optimizer_start = sir_start.flatten(order="F")
+                else:
+                    self.optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if self.optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    self.optimizer_constraints = tuple(const_z)
+                else:
+                    self.optimizer_constraints = tuple(const_x)
+            if self.optimizer_arguments is None:
+                N2 = inv(sqrtm(varmatx))
+                self.optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                self.optimizer_start,
+                args=self.optimizer_arguments,
+                constraints=self.optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if self.scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            else:  ## user defined function
+                self.optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if self.return_scaling_object and self.center != "mean":
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns)  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From cae4426b53561f4ed0a7aa8de10166abc49ff91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 22/45] fix: SIR, SAVE and DR use the slices present in the
 response

---
 src/direpack/sudire/_sudire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..7606d27 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -225,6 +225,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -289,6 +290,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -360,6 +362,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From f2f0fd01c4737e5107a4fe883c1d98305a33295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 23/45] fix: sudire starting values are computed with the
 response type, centring and scaling asked for

---
 src/direpack/sudire/sudire.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 79bd973..951dd84 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -432,12 +432,14 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if self.optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     sir_start = np.matmul(N2, sir_start)
@@ -446,7 +448,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, y, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     DR_start = np.matmul(N2, DR_start)
-- 
2.43.0


From 95737ff6cb91e9f8b437c39da6907b60258d18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 24/45] fix: sudire does not carry optimizer data over from one
 fit to the next

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 951dd84..5328ed5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -429,8 +429,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(self.X0, P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.response_type,
                     self.center_data, self.scale_data
@@ -456,13 +459,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -482,12 +485,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -501,9 +504,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -517,12 +520,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -534,12 +537,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -551,12 +554,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From 6b7a0b6b11c731ca30c6571631ac0fe9ff5ca9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 25/45] fix: snipls and sprm do not overwrite their columns
 parameter when fitted

---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 23 ++++++++++++-----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..5bf9ee3 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index ef2afe1..183f66c 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -189,18 +189,19 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
@@ -229,10 +230,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -247,8 +248,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -321,7 +322,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
-- 
2.43.0


From 05e1d15759880b5dc9e6e00f84240a9b0813f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 26/45] fix: sprm does not overwrite its scale parameter when
 fitted

---
 src/direpack/sprm/sprm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 183f66c..b9b1a20 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -208,13 +208,14 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -271,7 +272,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -338,7 +339,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -416,7 +417,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From a131e92f740bc65c84d9f1789da0aaafa8dc29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 27/45] fix: rm and sprm predict after a fit with copy=False

---
 src/direpack/sprm/rm.py   | 3 +++
 src/direpack/sprm/sprm.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3a60087..9b216de 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -92,6 +92,9 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index b9b1a20..0c0e383 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -159,6 +159,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (type(self.n_components) == int) | (self.n_components <= 0):
             raise MyException(
-- 
2.43.0


From bb259b1757b6756abf7b48ede342a2b994266b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:39 +0000
Subject: [PATCH 28/45] fix: MDDM accepts a single conditioning variable

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 8e7b217..b77b9fe 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -442,7 +442,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From 6b6523f0dcee2ef76307f79e9408038b75fc6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 29/45] fix: sudire loadings with a median centre are
 directions of the original variables

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 5328ed5..f85e4c4 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -326,6 +326,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
+                # directions found in the scaled data are mapped back by their scales
+                N2 = np.diag(1 / np.where(sX == 0, 1, sX))
             else:
                 raise (
                     MyException(
@@ -489,7 +491,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     optimizer_constraints = tuple(const_x)
             if optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
                 optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From cee0be43edcf14f51917821b26c2dc9f4924a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:57 +0000
Subject: [PATCH 30/45] fix: sudire predicts a single case and new data with
 constant scores

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f85e4c4..bfc66c0 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -651,7 +651,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From 71bd5d28caa04df5776a4a1c912ec7ce0e06a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:20 +0000
Subject: [PATCH 31/45] fix: a response in a data frame keeps its cases in rows

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 715e958..73cb053 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From a58b0499b15199a1537d34b99257f1254857a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:18 +0000
Subject: [PATCH 32/45] fix: grid search refinement ignores directions without
 a real divisor

---
 src/direpack/ppdire/_ppdire_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..c5be701 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -179,7 +179,8 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
-    maximo = np.max(meas)
+    # directions whose divisor is not positive are no candidates
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From dea2b595248c19844784b68034fc345e3ad64f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:26 +0000
Subject: [PATCH 33/45] fix: grid search ignores directions in which the
 projection index is undefined

---
 src/direpack/ppdire/_ppdire_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index c5be701..43a7c49 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -94,7 +94,8 @@ def gridplane(X,most,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
         
-    maximo = np.max(meas)
+    # directions whose index is undefined are no candidates
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From 73202dc2468c6d7ef1acdcbb5a8b7effc432d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 34/45] fix: sudire fits a data frame without centring

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index bfc66c0..eb43036 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -310,7 +310,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 mX = trim_mean(X, self.trimming, axis=0)
                 sX = np.sqrt(np.diag(varmatx))
         else:
-            Xs = X0
+            Xs = X
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
         if self.scale_data:
-- 
2.43.0


From ea041498f6d60c595fb527ec0e56be139465f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:47 +0000
Subject: [PATCH 35/45] fix: sudire with a median centre fits without centring
 and scaling

---
 src/direpack/sudire/sudire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index eb43036..b95e625 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -587,7 +587,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "x_sca_", sX)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (self.center_data or self.scale_data)
+        ):
             setattr(self, "scaling_object_", centring)
         return self
 
-- 
2.43.0


From 5090c2a72d769c4c7cd9295670f6b360d48873c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:12 +0000
Subject: [PATCH 36/45] fix: minimize_ipopt does not write into the options it
 is given

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..914d690 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From e36559723f8086bcc230e924a20675f0718c7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:52 +0000
Subject: [PATCH 37/45] fix: ppdire does not overwrite its optimizer options
 with the default number of directions

---
 src/direpack/ppdire/ppdire.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9151698..97429a9 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -424,8 +424,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options = {**self.optimizer_options,'ndir':1000}
+            ndir = self.optimizer_options.get('ndir',1000)
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -434,7 +433,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,ndir,endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -450,14 +449,14 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,ndir,endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
+            opt_args['ndir'] = ndir,
             opt_args['maxiter'] = self.optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
@@ -466,7 +465,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': ndir,
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
-- 
2.43.0


From a02d290c552c52e6233227e92a71897aaf59848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:52 +0000
Subject: [PATCH 38/45] fix: ball radial function keeps the case at the cut-off
 (rounding of the 2/3 power excluded it)

---
 src/direpack/preprocessing/_gsspp_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/direpack/preprocessing/_gsspp_utils.py b/src/direpack/preprocessing/_gsspp_utils.py
index 173e6ba..dff0e82 100644
--- a/src/direpack/preprocessing/_gsspp_utils.py
+++ b/src/direpack/preprocessing/_gsspp_utils.py
@@ -71,9 +71,7 @@ def ball(dd, p, n):
       xi: radial function
     """
     
-    dWH = np.power(dd,2/3) 
-    dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    d_hmed = np.power(dWH_hmed,3/2)
+    d_hmed = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     idx = np.where(dd > d_hmed)[0]
     xi = np.ones((n,1))
     xi[idx] =  0
-- 
2.43.0


From deeef764c907d4a56cae9f77e7b9d8fc79d6dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 39/45] fix: scaled intercept of rm and sprm pairs each
 residual with its own case

---
 src/direpack/sprm/rm.py   | 4 ++--
 src/direpack/sprm/sprm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9b216de..80b0102 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -233,10 +233,10 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         yfit = yp_rescaled + intercept
         if self.scale != "None":
             if self.centre == "mean":
-                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1))
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
         else:
             ytil = np.array(np.matmul(X, b)).reshape(-1)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0c0e383..0a42dbe 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -423,11 +423,11 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
             else:
                 b0 = np.median(
                     np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From ce5696771f3b9c30ed3f600cb573de96954daa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 40/45] fix: scaled intercept of ppdire uses the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 97429a9..e4c75a8 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -718,10 +718,11 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 intercept = np.median(np.reshape(y - np.matmul(X,bi),(-1)))
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
+                bs = B_scaled[:,h-1].reshape(-1,1).astype("float64")
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bs))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bs)))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 78c89219c92547d4c911bc8f73b72858262615ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 41/45] fix: snipls without retained variables reports zeros
 rather than uninitialised memory

---
 src/direpack/sprm/snipls.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 5bf9ee3..bfd4113 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -161,13 +161,13 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             S = np.matmul(X0.T, X0)
             dot = np.dot
         s0 = dot(X0.T, y0)
-        T = np.empty((n, self.n_components), float)
-        W = np.empty((p, self.n_components), float)
-        P = np.empty((p, self.n_components), float)
-        C = np.empty((self.n_components, 1), float)
-        Xev = np.empty((self.n_components, 1), float)
-        yev = np.empty((self.n_components, 1), float)
-        B = np.empty((p, 1), float)
+        T = np.zeros((n, self.n_components), float)
+        W = np.zeros((p, self.n_components), float)
+        P = np.zeros((p, self.n_components), float)
+        C = np.zeros((self.n_components, 1), float)
+        Xev = np.zeros((self.n_components, 1), float)
+        yev = np.zeros((self.n_components, 1), float)
+        B = np.zeros((p, 1), float)
         oldgoodies = np.array([])
         Xi = X0
         yi = y0
@@ -243,11 +243,8 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 ),
             )
         else:
-            B = np.empty((p, 1))
-            B.fill(0)
-            R = B
-            T = np.empty((n, self.n_components))
-            T.fill(0)
+            B = np.zeros((p, 1))
+            R = np.zeros((p, self.n_components))
         B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
-- 
2.43.0


From 332300dd505b0509ea6482c59c55ccb5ccdaac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 42/45] fix: capi keeps its centring parameter and applies the
 projection index set last

---
 src/direpack/ppdire/capi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..01bf379 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -67,6 +67,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.pi_arguments = pi_arguments
         self.weights = weights
         self.most = self.projection_index(**self.pi_arguments)
+        self.centring = centring
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
@@ -86,6 +87,7 @@ class capi(_BaseComposition, BaseEstimator):
             options = np.arange(1, 4)
         else:
             options = np.array(self.options, ndmin=1)
+        self.most = self.projection_index(**self.pi_arguments)
         moments = np.zeros(6)
         fit_arguments = {"order": 0, "y": y}
         fit_arguments = {**kwargs, **fit_arguments}
-- 
2.43.0


From 55f200c8c7181ea9d1e9fce8c7728b6b835ed07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 43/45] fix: trimmed unbiased distance co-moments use the
 trimmed sample size throughout

---
 src/direpack/dicomo/dicomo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 87193d2..8a37348 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -399,10 +399,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please supply second data vector'))
                     else:
                         y = kwargs.get('y')
-                        n1 = len(y)
-                    if n1==0:
+                        ny = len(y)
+                    if ny==0:
                         raise(MyException('Please feed data with length > 0'))
-                    if n1!=n:
+                    if ny!=n:
                         raise(MyException('Please feed x and y data of equal length'))
                     if len(y.shape)==1:
                         y = np.array(y).reshape((n,1))
@@ -427,7 +427,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n2,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 689e2210eaeecd9e321ae5e369ca203c9cd1d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:41 +0000
Subject: [PATCH 44/45] fix: ppdire quantile inner regression uses the
 preprocessed response

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e4c75a8..aab1790 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -676,7 +676,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From 860d537bfc85d90daa838b7e06d8f01f42b82ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:01 +0000
Subject: [PATCH 45/45] fix: sudire.py keeps the line endings it had

---
 src/direpack/sudire/sudire.py | 1676 ++++++++++++++++-----------------
 1 file changed, 838 insertions(+), 838 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index b95e625..24e8e5d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,838 +1,838 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = "euclidean"
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-        else:
-            X0 = X
-        self.X0 = X0
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-                # directions found in the scaled data are mapped back by their scales
-                N2 = np.diag(1 / np.where(sX == 0, 1, sX))
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            optimizer_start = self.optimizer_start
-            optimizer_constraints = self.optimizer_constraints
-            optimizer_arguments = self.optimizer_arguments
-            ## choose starting value for DCOV-SDR
-            if optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    optimizer_start = sir_start.flatten(order="F")
-                else:
-                    optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    optimizer_constraints = tuple(const_z)
-                else:
-                    optimizer_constraints = tuple(const_x)
-            if optimizer_arguments is None:
-                optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                optimizer_start,
-                args=optimizer_arguments,
-                constraints=optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if (
-            self.return_scaling_object
-            and self.center != "mean"
-            and (self.center_data or self.scale_data)
-        ):
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = "euclidean"
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+        else:
+            X0 = X
+        self.X0 = X0
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+                # directions found in the scaled data are mapped back by their scales
+                N2 = np.diag(1 / np.where(sX == 0, 1, sX))
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+            ## choose starting value for DCOV-SDR
+            if optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    optimizer_start = sir_start.flatten(order="F")
+                else:
+                    optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    optimizer_constraints = tuple(const_z)
+                else:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
+                optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if self.scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            else:  ## user defined function
+                optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (self.center_data or self.scale_data)
+        ):
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0

