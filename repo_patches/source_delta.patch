From b894cb89173f0817b9691b3b807c4f5e78c97581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 01/15] fix: contour_head catches the module's AquiferError
 (undefined name onekapy)

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From 24fccf507ae8adf14b2299ef5b42cd817e2505ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 02/15] fix: accept smooth = 0, the documented default

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 3e340bf03d0f7944c76d3a745b6d64192a027940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 03/15] fix: sample and average list descriptors, which
 isdistribution accepts

---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From 00c18a4f9b033893b152b9dff7c99508d349624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 04/15] fix: sign of the recharge logged for a stochastic
 realization

---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..8a7da8b 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From d157956b76ae8f62688c344b6ff7d0f4260c5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 05/15] fix: capture zone warnings reach the Oneka run log

---
 oneka/capturezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..cc17e20 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -44,7 +44,7 @@ Version
 import logging
 import numpy as np
 
-log = logging.getLogger(__name__)
+log = logging.getLogger("Oneka")
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 0189fe8e28cf013c5f0d3383e3e76cafa3805c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 06/15] fix: grow the grid to hold every node within umbra of
 the path

---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..ff9a719 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -332,7 +332,7 @@ class ProbabilityField:
         None.
         """
         # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From 9f76874556b0d91607bae8d14ef0da5625951efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 07/15] fix: distance to a zero-length segment

---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index ff9a719..ac247e2 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A zero-length segment is a point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 8322c37460b3120f4787bb262ecb031a92af47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 08/15] fix: reject observations with a zero standard
 deviation, the fit divides by it

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..19d3b5c 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From bfd44780483ef0d3aa31b0e99391e0f554c75fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 09/15] fix: oneka returns the probability field as documented

---
 oneka/oneka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 19d3b5c..74c6ef6 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,9 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From 4fad311cfcb5b7d295d425d4e0737160465f4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 10/15] fix: a backtrace no longer swallows KeyboardInterrupt
 and SystemExit

---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index cc17e20..b7a1e08 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -246,8 +246,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From ca5e10ba66ed08b812d5114a922e1754dd4984d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 11/15] fix: a non-finite velocity ends the backtrace instead
 of looping forever

---
 oneka/capturezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index b7a1e08..c9ed905 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,9 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            if not np.isfinite(est + ds):
+                raise FloatingPointError('the backtracing velocity is not finite.')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 29dca9be00876b3cfbf30f6000c277dded09867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 12/15] fix: sample a degenerate triple, which isdistribution
 accepts

---
 oneka/stochastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 8a7da8b..46717bd 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -298,6 +298,8 @@ def generate_random_variate(arg):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
+    elif len(arg) == 3 and arg[0] == arg[2]:
+        value = arg[1]
     elif len(arg) == 3:
         value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
-- 
2.43.0


From 9f12023d5cbdb212fe1dfb6d4bb9c1de9c1a2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 13/15] fix: models no longer share their coefficient array

---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..f54e00e 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.array(coef).reshape([6, ])
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From dec5470a03b77c1582544dd5342d86f87996c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 14/15] fix: missing f-prefix in a log message

---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index ac247e2..1da370b 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -217,7 +217,7 @@ class ProbabilityField:
 
             self.total_weight = 0.0
 
-            log.debug('grids expanded to ({self.nrows}, {self.ncols}).')
+            log.debug(f'grids expanded to ({self.nrows}, {self.ncols}).')
         else:
             # Determine the new grid geometry.
             nrows = self.nrows
-- 
2.43.0


From 95ca2fc254d2369d80a2d8f9ab19628fbfded168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 15/15] fix: merge duplicate observations wherever they are
 listed, not only neighbours

---
 oneka/utilities.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..65d154c 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -109,24 +109,24 @@ def filter_obs(observations, wellfield, buffer):
     # Assume that the duplicate errors are statistically independent.
     retained_obs = []
 
-    i = 0
-    while i < len(obs):
-        j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
-
-        if j-i > 1:
+    while len(obs) > 0:
+        first = obs[0]
+        same = [first] + [ob for ob in obs[1:]
+                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
+        obs = [ob for ob in obs[1:]
+               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
+
+        if len(same) > 1:
             num = 0
             den = 0
-            for k in range(i, j):
-                num += obs[k][2]/obs[k][3]**2
-                den += 1/obs[k][3]**2
-                log.info('    duplicate observation: {0}'.format(obs[k]))
-            retained_obs.append((obs[i][0], obs[i][1], num/den, np.sqrt(1/den)))
+            for ob in same:
+                num += ob[2]/ob[3]**2
+                den += 1/ob[3]**2
+                log.info('    duplicate observation: {0}'.format(ob))
+            retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))
             log.info('averaged observation created: {0}'.format(retained_obs[-1]))
         else:
-            retained_obs.append(obs[i])
-        i = j
+            retained_obs.append(first)
 
     log.info('')
     log.info('active observations: {0}'.format(len(retained_obs)))
-- 
2.43.0

