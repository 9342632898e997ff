From 57852d6b35949aae07d233e44b063827f61b89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:23 +0000
Subject: [PATCH 01/49] fix: leave the model at (and return) the best-fit
 point, not the last trial point

---
 package/inference/pie/inference_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..34e2122 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -528,6 +528,9 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The last point a minimizer tries need not be the best one; leave
+        # the model at the optimum.
+        self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From 82cd0e215eab6029bf72ab967a096613e740d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:23 +0000
Subject: [PATCH 02/49] fix: do_grid covers the whole grid wherever stepping
 was left

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 34e2122..b9ca59f 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -413,6 +413,8 @@ class Inference(HasAutoNamed):
         collected and returned as a SimpleVectorGrid.  The method and
         tol arguments get passed to the resulting optimize() calls.
         """
+        # Start at the first step, even if the user has been stepping manually.
+        self.reset_steps()
         results = ScalarGrid(self.stepping_params)
         vdim = len(self.varying_params)
         # if vargrid and (vdim == 0):
-- 
2.43.0


From 64ddd27eaa6a0b04f0d0f82d273e0f8032746558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:23 +0000
Subject: [PATCH 03/49] fix: do_grid ignores vargrid without varying params, as
 documented

---
 package/inference/pie/inference_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index b9ca59f..89dcb97 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -465,7 +465,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if self.varying_params and vargrid:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From 6d6904f8ad98ec4a59c1f2f42287a8302fe0c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:23 +0000
Subject: [PATCH 04/49] fix: linstep/logstep default to the parameter's range
 when lo/hi are omitted

---
 package/inference/pie/realparam.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..4ebbebf 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -135,9 +135,9 @@ class RealParamHandler(ScalarParamHandler):
         else:
             self.shi = hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
+        self.delta = (self.shi-self.slo)/(n-1.)
         self.step_num = 0
-        self._set_value(lo)
+        self._set_value(self.slo)
         self._set_status(stepping)
 
     def step(self, lo=None, hi=None, n=10):
@@ -152,17 +152,15 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo = lo
+        self.shi = hi
         self.steps = n
         self.fac = exp(log(hi/lo)/(n-1.))
         self.step_num = 0
-- 
2.43.0


From fec62d636566ceae2206782671862a2b733e18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:23 +0000
Subject: [PATCH 05/49] fix: SampledGaussian accepts a single table of data and
 vector-valued locations

---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From 28131402c0487242cfd819d4270e79b4a53d3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 06/49] fix: vary() verifies the start value before changing
 the parameter

---
 package/inference/pie/realparam.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 4ebbebf..a897988 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -235,13 +235,15 @@ class RealParamHandler(ScalarParamHandler):
         else:  # *** Perhaps use a default delta (& warn if so)?
             if self.delta == None:
                 raise ValueError('Need a delta for varying parameter!')
+        # Verify the start value before changing the status.
+        if start is None:
+            start = self._value
+            if start is None:
+                raise ValueError('Need a start value for varying parameter!')
+        if start < self.lo or start > self.hi:
+            raise ParamRangeError("Start value out of parameter's allowed range!")
         self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
-        if start != None:
-            self.set_value(start)  # Note: this will verify in range.
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
+        self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From b58b7b4971ab701e17578175784d222629a5dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 07/49] fix: subclassing a model or predictor set no longer
 alters its base's name lists

---
 package/inference/pie/param.py     | 8 ++++----
 package/inference/pie/predictor.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..16a1d8e 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -85,10 +85,10 @@ class Param(AutoNamed):
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of param names in the class dict.
-        try:
-            cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
+        # Do not extend the list of a base class.
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        cls.param_names.append(name)
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..f4c1c4c 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -59,10 +59,10 @@ class Predictor(AutoNamed):
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of predictor names in the class dict.
-        try:
-            cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
+        # Do not extend the list of a base class.
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        cls.predictor_names.append(name)
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From e5788843b594ff99db7e329d3ed1bc12cca3dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 08/49] fix: find params declared with any spacing, or with no
 source available (e.g. interactively)

---
 package/inference/pie/inference_base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 89dcb97..2368ceb 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -3,6 +3,7 @@ Utilities and base class for inferences.
 """
 
 import inspect
+import re
 
 from .param import *
 from .autoname import HasAutoNamed
@@ -127,19 +128,18 @@ class Inference(HasAutoNamed):
             for line in source:
                 line = line.strip()
                 for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
+                    if re.match(param + r'\s*=(?!=)', line):
                         oparams.append(param)
                         signal_params.remove(param)
             if signal_params != []:
                 raise InferenceError('Some params not defined in SignalModel source!')
         except IOError:  # Only in the unlikely event of interactive model def'n
             print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
+            oparams = self.signal_class.param_names[:]
         except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
             print('Could not locate SignalModel source; proceeding with unordered params.')
             print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
+            oparams = self.signal_class.param_names[:]
         return oparams
 
     def _get_pred_names(self, pred_params):
@@ -155,7 +155,7 @@ class Inference(HasAutoNamed):
                 for line in source:
                     line = line.strip()
                     for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
+                        if re.match(param + r'\s*=(?!=)', line):
                             oparams.append(param)
                             pred_params.remove(param)
                 if pred_params != []:
@@ -166,19 +166,19 @@ class Inference(HasAutoNamed):
             for line in source:
                 line = line.strip()
                 for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
+                    if re.match(pred + r'\s*=(?!=)', line):
                         opreds.append(pred)
                         preds.remove(pred)
             if preds != []:
                 raise InferenceError('Some Predictor(s) not defined in Predictors source!')
         except IOError:  # Only in the unlikely event of interactive pred. def'n
             print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
+            oparams = getattr(self.pred_class, 'param_names', [])[:]
+            opreds = self.pred_class.predictor_names[:]
         except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
             print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
+            oparams = getattr(self.pred_class, 'param_names', [])[:]
+            opreds = self.pred_class.predictor_names[:]
         return oparams, opreds
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
-- 
2.43.0


From f3e86ce52391e10907b29d804a40eed77b6503ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 09/49] fix: del_listener refers to the listener list

---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index 16a1d8e..4b5ad85 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From 5757840d91201f592e3f74cdaa0075b58c716c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 10/49] fix: scale of a bounded parameter stays finite when a
 delta step reaches the range boundary

---
 package/inference/pie/inference_base.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 2368ceb..440c922 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -500,15 +500,19 @@ class Inference(HasAutoNamed):
                 # Calculate delta for the unbounded version.
                 uv = param._unbounded_get_value()
                 v = param.get_value()
-                # We may need to try a step in both directions.
-                try:
-                    param.set_value(v+param.delta)
-                    uv2 = param._unbounded_get_value()
-                    d.append(uv2-uv)
-                except ParamRangeError:
-                    param.set_value(v-param.delta)
-                    uv2 = param._unbounded_get_value()
-                    d.append(uv-uv2)
+                # Step in the direction with room for delta; if neither has
+                # it, step part way to the more distant boundary.
+                step = param.delta
+                if v+step >= param.hi:
+                    step = -step
+                    if v+step <= param.lo:
+                        if param.hi-v > v-param.lo:
+                            step = 0.5*(param.hi-v)
+                        else:
+                            step = 0.5*(param.lo-v)
+                param.set_value(v+step)
+                uv2 = param._unbounded_get_value()
+                d.append(abs(uv2-uv))
                 param.set_value(v)
                 p.append(uv)
         else:
-- 
2.43.0


From 08a5365090c697b1c3216537123085cf2eb6ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 11/49] fix: unbounded value is finite for a parameter at its
 range boundary

---
 package/inference/pie/realparam.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index a897988..f858c07 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -261,13 +261,14 @@ class RealParamHandler(ScalarParamHandler):
             raise ValueError('No bounds defined for parameter!')
         else:
             # Handle roundoff error near boundaries.
-            # *** Make the constants platform-independent.
-            # if self._value <= self.lo:
-            # return -1.e-323
-            # elif self._value >= self.hi:
-            # return 1.e308
-            # else:
-            return log(self._value-self.lo) - log(self.hi-self._value)
+            # A boundary is represented by a finite value that
+            # _unbounded_set_value maps to the boundary (to roundoff).
+            if self._value <= self.lo:
+                return -745.
+            elif self._value >= self.hi:
+                return 745.
+            else:
+                return log(self._value-self.lo) - log(self.hi-self._value)
 
     def _unbounded_set_value(self, uvalue):
         """Set a varying param's value via a transformed parameter that has
-- 
2.43.0


From 3fcb81ea1879945ddce610588698b2bd42d0f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:14 +0000
Subject: [PATCH 12/49] fix: simulated data are not truncated when the original
 data are integers

---
 package/inference/pie/gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..31ce1a8 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -42,9 +42,10 @@ class SampledGaussianHandler(PredictorHandler):
         # arrays).  For other data types we might need to use the copy
         # or deepcopy modules.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            # Simulated values are floats even if the original data are not.
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
-- 
2.43.0


From 6061f4f3735d407346672b04039f4e764bce7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:14 +0000
Subject: [PATCH 13/49] fix: sim/sim1 accept array arguments, a new number of
 data, and a location of zero

---
 package/inference/pie/gaussian.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 31ce1a8..a5c2906 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -111,19 +111,20 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns, float)
+            self.sigmas = array(sigmas, float)
+            self.ndata = len(self.locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns, float)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas, float)
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
@@ -139,10 +140,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From eb4a27d464c9c35d938a32dd2571473abeadb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:14 +0000
Subject: [PATCH 14/49] fix: add_sim simulates the values of the additional
 data

---
 package/inference/pie/gaussian.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index a5c2906..be81b2b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -161,25 +161,27 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
+        nold = self.ndata
+        if locn is not None and sigma is not None:
             self.locns = concatenate( (self.locns, (locn,)) )
             self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
+        elif locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
             self.locns = concatenate( (self.locns, locns) )
             self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
+        self.ndata = len(self.locns)
         if len(self.locns.shape) == 1:
             self.dimen = 1
-        elif len(self._locns.shape) == 2:
+        elif len(self.locns.shape) == 2:
             self.dimen = self.locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-        # Update predictions.
+        # Update predictions, and simulate the new data.
         self.get_prdxns()
+        new = array(self.prdxns[nold:]) + \
+            self.sigmas[nold:]*stdnorm.rvs(self.ndata-nold)
+        self.vals = concatenate( (self.vals, new) )
         
 
 # *** Add method to restore to original (not simulated) data?
-- 
2.43.0


From ac2a6e36bdffa2015a596ded4d41167bf1bc6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:14 +0000
Subject: [PATCH 15/49] fix: set_params with a stepping param changes nothing

---
 package/inference/pie/inference_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 440c922..818c1b3 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -338,14 +338,16 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Check all params before changing any.
+        for name in self.params:
+            if getattr(self, name).status not in (fixed, varying):
+                raise ParamError('Use set_params only when params are fixed or varying!')
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
                 param.fix(getattr(pv,name))
             elif param.status == varying:
                 param.vary(getattr(pv,name))
-            else:
-                raise ParamError('Use set_params only when params are fixed or varying!')
 
     # *** Make versions of show*() that return strings.
 
-- 
2.43.0


From c48c02b7d9c65d707d7236c4ef0d678263bfa3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 16/49] fix: HPD normalization includes intervals where the
 density equals its minimum

---
 package/inference/grid/hpd.py     | 4 ++--
 package/inference/grid/hpdgrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..75842d5 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,7 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx  # -1 is below all values
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +243,7 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy  # -1 is below all values
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..cc82397 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,7 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx  # -1 is below all values
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +261,7 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy  # -1 is below all values
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From a799803e0c819a99482ae80a09f96fa8f9c1f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 17/49] fix: boundaries of HPD regions on logarithmic grids are
 those of p(log x)

---
 package/inference/grid/hpd.py     | 6 +++++-
 package/inference/grid/hpdgrid.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 75842d5..380f82a 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -177,7 +177,11 @@ class HPD1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        # The region is for p(log x) for log steps.
+        logdens = self.logpdf - self.max
+        if not self.linstep:
+            logdens = logdens + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logdens, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index cc82397..30345a0 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -187,7 +187,11 @@ class HPDGrid1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        # The region is for p(log x) for log steps.
+        logdens = self.logpdf - self.max
+        if not self.linstep:
+            logdens = logdens + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logdens, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
-- 
2.43.0


From b0ce867c1a3ac2b259eaafc28abd6a4a7c077fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 18/49] fix: normal density ratios do not depend on the
 dimension

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 380f82a..4ba3c84 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPD1D(object):
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 30345a0..9d27020 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPDGrid1D(object):
-- 
2.43.0


From e6d76000e7c98b86d54ac0555452868799142a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 19/49] fix: HPD2D stores yhi

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 4ba3c84..44796be 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -225,7 +225,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 9a8e02c6ee074a7b83bd76f1c834c93335954830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 20/49] fix: xvalues does not write beyond its output for too
 many upward crossings

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From 65b6d0f0f129740b1bdcefcc7795f88fed4ad716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 21/49] fix: xvalues finds crossings exactly at a grid point

---
 package/inference/grid/_gridquad.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..d99ad26 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -100,7 +100,7 @@ cf2py intent(out) xvals, nx, ok
 	ok = .true.
 	nx = 0
 	do 20 i=1, n-1
-	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
+	    if (yarr(i) .le. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
@@ -108,7 +108,7 @@ cf2py intent(out) xvals, nx, ok
 	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
-	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
+	    else if (yarr(i+1) .le. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
-- 
2.43.0


From 863b9a29103106b44822e855df5671984391dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 22/49] fix: update of a reverse-sense interval list uses the
 passed bounds

---
 package/inference/grid/grid1d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..301a3bb 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -281,8 +281,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
-- 
2.43.0


From 067c66f6c2e9d0b4fefb20c19894f37f3507d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 23/49] fix: intervals refining a logarithmic grid are
 logarithmic

---
 package/inference/grid/grid1d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 301a3bb..322b192 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -181,6 +181,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -208,6 +209,7 @@ class RefinedIntervalList1D:
             self.lo = hi
             self.hi = lo
         stype = stype.lower()
+        self.stype = stype
         if stype == "lin" or stype == "linear":
             self.isLin = 1
         elif stype == "log" or stype == "logarithmic":
@@ -322,12 +324,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -337,19 +339,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -380,7 +382,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From 25bd3f9d0ee0231445130c745092f45f63d82984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 24/49] fix: the last grid point is exactly the upper end

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 322b192..619e568 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -515,7 +515,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From a063037d2052ca3e48936d755a852e45d3fba9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 25/49] fix: vecfunc records peaks in an initially empty list

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 619e568..ef6547e 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -596,7 +596,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From 2cc4913edcf059d21309c7b45f5a666f03a14bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 26/49] fix: iteration over the points of a grid

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index ef6547e..10cfa71 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -871,13 +871,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(len(self)):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From 0479b2d38989b44939675592dec778f915d57eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 27/49] fix: logtrapzd_mom without moments is logtrapzd

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 10cfa71..7286ba0 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -964,7 +964,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From 8008d2013eafb53be8a4387efc48b94b9d909e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 28/49] fix: items of a list of maxima can be deleted

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7286ba0..874bd70 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -67,7 +67,7 @@ class LabeledMaxList:
     def __setitem__(self, n, val):
         self.list[n] = val
 
-    def __delitem__(self, n, val):
+    def __delitem__(self, n):
         del self.list[n]
 
     def __repr__(self):
-- 
2.43.0


From 982027f482fc1ee164da455c09a4a6cd6a0e93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 29/49] fix: limiting the range of an empty list of maxima does
 nothing

---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 874bd70..e8e558e 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From 916d6dc99503231768326ec59b4a6b4cbd39fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 30/49] fix: a dynamic range of 1 is a limit

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index e8e558e..bbb570a 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -99,7 +99,7 @@ class LabeledMaxList:
                 del self.list[self.nmax]
 
         # Check the dynamic range spanned by list members if necessary.
-        if self.dynrange:
+        if self.dynrange is not None:
             top = self.list[0][0]
             i = lo        # We must start at lo in case we inserted at the end.
             while i < len(self.list):
-- 
2.43.0


From 6b8a0e5c9de036653690ba82a89993b999606ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:30 +0000
Subject: [PATCH 31/49] fix: refined intervals end exactly at the ends of
 existing intervals

---
 package/inference/grid/grid1d.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index bbb570a..1031c58 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -161,18 +161,21 @@ class BasicInterval:
     def locate(self, x):
         """Locate x in the interval, returning the subinterval
         number and endpoints (i, l, h).  This assumes x is
-        in fact in the interval.  If x=hi, then i=n, and l=h=hi."""
+        in fact in the interval.  If x=hi, then i=n-1, and l=h=hi."""
 
+        # Avoid roundoff error at the upper endpoint.
+        if x >= self.hi:
+            return (self.n-1, self.hi, self.hi)
         if self.isLin:
-            i = int(floor((x-self.lo)/self.step))
+            i = min(int(floor((x-self.lo)/self.step)), self.n-2)
             l = self.lo + i*self.step
             h = l + self.step
         else:
-            i = int(floor(log(x/self.lo)/self.step))
+            i = min(int(floor(log(x/self.lo)/self.step)), self.n-2)
             l = self.lo * exp(i*self.step)
             h = l * self.fac
-        if (i == self.n-1):
-            h = l
+        if (i == self.n-2):
+            h = self.hi
         return (i, l, h)
 
     def resample(self, n):
-- 
2.43.0


From c2662d9472c7cc87428d07117d65f7206bdd73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 32/49] fix: refinement of logarithmic intervals compares
 logarithmic steps, of either sign

---
 package/inference/grid/grid1d.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 1031c58..8a61003 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -268,7 +268,7 @@ class RefinedIntervalList1D:
         if self.isLin:
             return (hi-lo) / (n-1.)
         else:
-            return log(hi/lo) / (n-1.)
+            return abs(log(hi/lo)) / (n-1.)
 
 #*** There could be an inconsistency from ignoring isPos...
     def _numPts(self, lo, hi, step):
@@ -277,7 +277,7 @@ class RefinedIntervalList1D:
         if self.isLin:
             return int(ceil((hi-lo)/step)) + 1
         else:
-            return int(ceil(log(hi/lo)/step)) + 1
+            return int(ceil(abs(log(hi/lo)/step))) + 1
 
     def update(self, lo, hi, n):
         """Update the interval list to include a new interval."""
@@ -316,7 +316,7 @@ class RefinedIntervalList1D:
             hi = hi_int[2]
         # Test if resolved.  Use lo_int rather than hi_int, because if
         # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        if 5*step > self._stepSize(lo_int[1], lo_int[2], 2):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -324,7 +324,7 @@ class RefinedIntervalList1D:
         # unless it undersamples the interval.  Be careful of it exactly matching
         # a boundary, in which case fewer inserts are needed.
         if nlo == nhi:
-            if step >= int_lo.step:  # undersampled; ignore the new interval
+            if step >= abs(int_lo.step):  # undersampled; ignore the new interval
                 return
             self._del(nlo)
             if lo > int_lo.lo:
@@ -340,7 +340,7 @@ class RefinedIntervalList1D:
 
         # Otherwise, we have to break up the intervals containing the boundaries,
         # and possibly resample intervals completely covered by the new one.
-        if (step < int_lo.step):
+        if (step < abs(int_lo.step)):
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
@@ -350,7 +350,7 @@ class RefinedIntervalList1D:
             m = self._numPts(lo, int_lo.hi, step)
             self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
-        if step < int_hi.step:
+        if step < abs(int_hi.step):
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
             self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
@@ -359,7 +359,7 @@ class RefinedIntervalList1D:
                 self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
-            if self.ilist[i].step > step:
+            if abs(self.ilist[i].step) > step:
                 n = self._numPts(self.ilist[i].lo, self.ilist[i].hi,
                                  step)
                 self.ilist[i].resample(n)
-- 
2.43.0


From 58e200f7d327c69c15e15a253ab6849a181bf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 33/49] fix: zbracket expands both ways where the function is
 flat

---
 package/inference/utils/numutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..e5557b2 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -195,13 +195,15 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
         tries += 1
         if f1*f2 < 0.:
             return x1, x2
-        if abs(f1) < abs(f2):
+        # Expand downhill; where the function is flat, both ways.
+        expand1, expand2 = abs(f1) <= abs(f2), abs(f2) <= abs(f1)
+        if expand1:
             x1 += expand*(x1-x2)
             if args:
                 f1 = func(*(x1,)+args)
             else:
                 f1 = func(x1)
-        else:
+        if expand2:
             x2 += expand*(x2-x1)
             if args:
                 f2 = func(*(x2,)+args)
-- 
2.43.0


From 5ffd0f9b8b839e489e5c681dc4b38e01435d2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:17 +0000
Subject: [PATCH 34/49] fix: peak parameters for points in a ratio of 1+sqrt(2)

---
 package/inference/grid/grid1d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 8a61003..807a4ac 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -32,10 +32,9 @@ def PeakParams(x, y):
     w = x[2]-x[0]
     alpha = (x[1]-x[0]) / w
     alpha2 = alpha**2
-    fac = 1. - 2.*alpha2
     a12 = y[0] - y[1]
-    C = alpha2/fac + a12/(a12-y[1]+y[2])
-    d = C*w*fac**2 / (2.*alpha*(1.-alpha) + C*(2.-4.*alpha)*fac)
+    a13 = y[0] - y[2]
+    d = 0.5*w*(a12 - alpha2*a13) / (a12 - alpha*a13)
     mean = x[0] + d
     alpha2 = w*alpha
     sig = alpha2*(0.5*alpha2 - d) / a12
-- 
2.43.0


From dc0882794a6b86fb3f0e3b8031d1b3a4f0049ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 35/49] fix: densities for integer arrays of signal rates were
 truncated to integers

---
 package/inference/count/onoff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..810a8cf 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -9,7 +9,7 @@ By Tom Loredo
 """
 
 
-from numpy import zeros_like
+from numpy import zeros
 from ._cbmlike import sigctp, psigc, slml_offset, vslml_offset, slmlike, \
     vslmlike, slmliked
 
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s), float)
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s), float)
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From 776ea10d3dd491bace5b9e92b993af56651a44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 36/49] fix: pnsig(0) returns the probability of no signal
 counts

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 810a8cf..1b196d0 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,7 +202,7 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
-- 
2.43.0


From 8932f127671708d992f8e8d75fa250b6544a4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 37/49] fix: pnsig returns a copy of the cached probabilities

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 1b196d0..d91e1ab 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -207,7 +207,7 @@ class OnOff(object):
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 6ae7e48e7b0dba6c576a23e11a6f132b0eb321d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:09 +0000
Subject: [PATCH 38/49] fix: obs_info returns the parameters to the mode

---
 package/inference/pie/bayes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..0cecd39 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -82,9 +82,13 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # Return to the mode; the evaluations moved the parameters off it.
+            self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 8d91213e2528ed231338c8a36a446c1397ba773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:09 +0000
Subject: [PATCH 39/49] fix: dllsteps leaves its array arguments alone

---
 package/inference/deriv/obsinfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..d29ed8c 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,7 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -25,6 +26,8 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     """
     if maxll is None:
         maxll = loglike(mle)
+    # Use copies; pk_scales works in place.
+    mle, guess = array(mle, float), array(guess, float)
     deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
-- 
2.43.0


From 4edbbf811af22c2e2a009963f3ac1874ec10b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 40/49] fix: dllsteps never ended for a parameter without
 effect on the likelihood

---
 package/inference/deriv/_obsinfo.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..5f6cd8a 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -81,6 +81,10 @@ c            print *, 'guess: ', i, x0, x(i), fnew
             del = fmax - fnew
             if (del .le. 0.) then
                 s = 1.3 * s
+                if (s .gt. 1.d30) then
+                    status = 3
+                    return
+                endif
                 go to 10
             endif
             x(i) = x0 + s*dx(i) * sqrt(df/del)
-- 
2.43.0


From 0859916e8a704c6deee7659022919568aeda9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 41/49] fix: circularly symmetric cubature rules lacked the
 rotation of their rings

Rules e2r2_9_19a, e2r2_11_28c and e2r2_13_41 had all rings of nodes at the same
angle and were exact only up to degrees 5, 3 and 9; every other ring is rotated
by half the angle between its nodes.
---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..8e1de92 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   1.4998798865218462e-16,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720810e+00,   -7.5693395806712038e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [  -4.4996396595655380e-16,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   1.2246467991473532e-16,    2.0000000000000000e+00],
+     [  -1.7320508075688770e+00,    1.0000000000000007e+00],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [  -3.6739403974420594e-16,   -2.0000000000000000e+00],
+     [   1.7320508075688776e+00,   -9.9999999999999933e-01],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From d6376bd3ea81aa52d39d6048297e86f9cfea930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:27 +0000
Subject: [PATCH 42/49] fix: adapt uses maxfac and wrkfac, and refuses illegal
 dimensions

The advice of its error messages (increase maxfac or wrkfac) had no effect, and
for dimensions outside [2,20] None was returned.
---
 package/inference/integrate/adapt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..d711c97 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = (2*ndim + 3) * (1 + maxfac) // 2
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,10 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  ndim = len(lower)
+  minpts, maxpts, lenwrk = adapt_sizes(ndim, maxfac)
+  # Always leave room for one region and the totals.
+  lenwrk = max(int(wrkfac*lenwrk), 2*ndim + 5)
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
@@ -91,3 +94,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Dimension must be in [2,20], and maxfac >= 1!')
-- 
2.43.0


From f2927ef440beafe60f249ca03c844de2347173a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:27 +0000
Subject: [PATCH 43/49] fix: adapt_vec failed with any argument (float division
 for sizes)

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From 86380d271400427c4fe0a1fb378d344764bbcdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 44/49] fix: stores load their file also when its name is given
 with the suffix

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 8c22d21200a7dee25ed8ab6d15c8bece66a9f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 45/49] fix: contents of a store lists names, each once

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From a131f6988df53bdb5b5239f10a446a2fb2e68b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 46/49] fix: safe_open passes keyword options to the opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..d38e0d1 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From 1185c019a7226faf84fbb9b694e8133507b431ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 47/49] fix: read_column_vectors failed for want of an import

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index d38e0d1..46b6502 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,7 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From 4f6d8d41485d57dd363fb563236d67964a01ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 48/49] fix: generator states are saved and restored in binary
 mode

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..e02dd28 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -24,7 +24,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +35,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
-- 
2.43.0


From 21b540c42acdc6f54ab402092536f5721edca913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 49/49] fix: a pending normal deviate is part of the saved
 generator state

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index e02dd28..68bc1d9 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,7 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        id, state = state[0], state[1:] # (ID, (key, pos, ...)) for MT
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -43,7 +43,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0

