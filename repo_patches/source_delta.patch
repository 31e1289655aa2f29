From 907eae36ab29b3a9ed9fd6ff5d96626172e82afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:27 +0000
Subject: [PATCH 01/69] fix: lognormal.sf raised AttributeError for x <= 0

Property: C01
---
 mpsci/distributions/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/lognormal.py b/mpsci/distributions/lognormal.py
index a8aa39c..e59255e 100644
--- a/mpsci/distributions/lognormal.py
+++ b/mpsci/distributions/lognormal.py
@@ -73,7 +73,7 @@ def sf(x, mu=0, sigma=1):
     mu, sigma = _validate_params(mu, sigma)
     x = mp.mpf(x)
     if x <= 0:
-        return mp.mp.one
+        return mp.one
     lnx = mp.log(x)
     return mp.ncdf(-lnx, -mu, sigma)
 
-- 
2.43.0


From 67c19eb6d322e5e22184a18e5163d5a50403306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:27 +0000
Subject: [PATCH 02/69] fix: benktander1 and benktander2 cdf and sf were nan at
 inf

Property: C01
---
 mpsci/distributions/benktander1.py | 4 ++++
 mpsci/distributions/benktander2.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 7b5e338..5025c3a 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -65,6 +65,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     blogx = b*mp.log(x)
     return 1 - (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
@@ -80,6 +82,8 @@ def sf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     blogx = b*mp.log(x)
     return (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index 75da718..5ac824e 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -64,6 +64,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     p = (b - 1)*mp.log(x) + a/b*-mp.powm1(x, b)
     return -mp.expm1(p)
 
@@ -79,6 +81,8 @@ def sf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     return x**(b - 1)*mp.exp((a/b) * -mp.powm1(x, b))
 
 
-- 
2.43.0


From 46492344a92408d6c2c3131d62f9c1264ec74112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 03/69] fix: f.cdf and f.sf were nan at inf and f.sf lost
 digits in the tail

Property: C01
---
 mpsci/distributions/f.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index 74d2966..bed1895 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -74,6 +74,8 @@ def cdf(x, dfn, dfd):
     x = mp.mpf(x)
     if x <= 0:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     dfnx = dfn * x
     return mp.betainc(dfn/2, dfd/2, x2=dfnx/(dfnx + dfd),
                       regularized=True)
@@ -104,8 +106,10 @@ def sf(x, dfn, dfd):
     x = mp.mpf(x)
     if x <= 0:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     dfnx = dfn * x
-    return mp.betainc(dfn/2, dfd/2, x1=dfnx/(dfnx + dfd),
+    return mp.betainc(dfd/2, dfn/2, x2=dfd/(dfnx + dfd),
                       regularized=True)
 
 
-- 
2.43.0


From bbf9aba9157facb2ff9277e2b64f270a53fcaa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 04/69] fix: invgauss cdf, logcdf, sf and logsf were nan at inf

Property: C01,C03
---
 mpsci/distributions/invgauss.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/invgauss.py b/mpsci/distributions/invgauss.py
index 6413314..83aab94 100644
--- a/mpsci/distributions/invgauss.py
+++ b/mpsci/distributions/invgauss.py
@@ -96,6 +96,8 @@ def cdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     z = (x - loc)/scale
     t1 = mp.ncdf((z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -111,6 +113,8 @@ def logcdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.ninf
+    if x == mp.inf:
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf((z/m - 1)/mp.sqrt(z)))
     t2 = (2/m) + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
@@ -147,6 +151,8 @@ def sf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.ncdf(-(z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -162,6 +168,8 @@ def logsf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if x == mp.inf:
+        return mp.ninf
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf(-(z/m - 1)/mp.sqrt(z)))
     t2 = 2/m + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
-- 
2.43.0


From 5160a243b88f110442b13b86564844077c53c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 05/69] fix: ncf.cdf was nan at inf

Property: C01
---
 mpsci/distributions/ncf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index 4c512da..3166533 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -63,6 +63,8 @@ def cdf(x, dfn, dfd, nc):
     """
     if x < 0:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
 
     def _cdfk(k):
         return _cdf_term(k, x, dfn, dfd, nc)
-- 
2.43.0


From ba447961487688d007a4dc06207fab76881e0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:27 +0000
Subject: [PATCH 06/69] fix: studentt.cdf and sf lost all accuracy in the tails
 (even negative values)

Property: C01
---
 mpsci/distributions/studentt.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mpsci/distributions/studentt.py b/mpsci/distributions/studentt.py
index a1fe127..8f32675 100644
--- a/mpsci/distributions/studentt.py
+++ b/mpsci/distributions/studentt.py
@@ -41,6 +41,18 @@ def pdf(x, df):
     return mp.exp(logpdf(x, df))
 
 
+def _tail(x, df):
+    """
+    Probability that the t distribution exceeds abs(x).
+    """
+    x2 = x**2
+    half = mp.one/2
+    if x2 < 1:
+        return half - mp.betainc(half, df/2, x2=x2/(df + x2),
+                                 regularized=True)/2
+    return mp.betainc(df/2, half, x2=df/(df + x2), regularized=True)/2
+
+
 @mp.extradps(5)
 def cdf(x, df):
     """
@@ -52,11 +64,8 @@ def cdf(x, df):
         return mp.zero
     if x == mp.inf:
         return mp.one
-    half = mp.one/2
-    h = (df + 1) / 2
-    p1 = x * mp.gamma(h)
-    p2 = mp.hyp2f1(half, h, 3*half, -x**2/df)
-    return half + p1*p2/mp.sqrt(mp.pi*df)/mp.gamma(df/2)
+    t = _tail(x, df)
+    return t if x < 0 else mp.one - t
 
 
 @mp.extradps(5)
@@ -70,11 +79,8 @@ def sf(x, df):
         return mp.one
     if x == mp.inf:
         return mp.zero
-    half = mp.one/2
-    h = (df + 1) / 2
-    p1 = x * mp.gamma(h)
-    p2 = mp.hyp2f1(half, h, 3*half, -x**2/df)
-    return half - p1*p2/mp.sqrt(mp.pi*df)/mp.gamma(df/2)
+    t = _tail(x, df)
+    return t if x > 0 else mp.one - t
 
 
 @mp.extradps(5)
-- 
2.43.0


From 1f688ca7f390d12fde5dd00b3486a833af096586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:58 +0000
Subject: [PATCH 07/69] fix: tukeylambda.cdf could not solve far tails, small
 lambda or infinite x

Property: C01,C02,C03
---
 mpsci/distributions/tukeylambda.py | 81 ++++++++++--------------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index 27bd7c9..686d5cc 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -30,12 +30,16 @@ def pdf(x, lam, loc=0, scale=1):
     Probability density function for Tukey's lambda distribution.
     """
     lam, loc, scale = _validate_params(lam, loc, scale)
+    x = mp.mpf(x)
     z = (x - loc)/scale
     if lam > 0:
         lamrecip = 1/lam
         if z <= -lamrecip or z >= lamrecip:
             return mp.zero
-    c = cdf(z, lam)
+    if mp.isinf(z):
+        return mp.zero
+    # The distribution is symmetric; use the smaller tail probability.
+    c = cdf(-abs(z), lam)
     p = 1/(mp.power(c, lam - 1) + mp.exp((lam - 1)*mp.log1p(-c)))
     return p/scale
 
@@ -52,56 +56,18 @@ def logpdf(x, lam, loc=0, scale=1):
     return mp.log(pdf(x, lam, loc, scale))
 
 
-def _cdf_solver_bracket(z, lam):
-    """
-    Get a bracket for p for solving invcdf(p, lam) = z.
-    """
-    lamrecip = 1/lam
-    if lam < 0:
-        if z < 0:
-            if z < mp.power(2.0, -lam)/lam:
-                pmax = mp.power(lam*z, lamrecip)
-            else:
-                pmax = mp.mpf(0.5)
-            if z < -mp.power(2.0, -lam - 1):
-                pmin = mp.zero
-            else:
-                pmin = mp.one/2 + mp.power(2, lam)*z
-        else:
-            # z > 0
-            if z > -mp.power(2.0, -lam)/lam:
-                pmin = -mp.expm1(mp.log(-lam*z)/lam)
-            else:
-                pmin = mp.mpf(0.5)
-            if z > mp.power(2.0, -lam - 1):
-                pmax = mp.one
-            else:
-                pmax = mp.one/2 + mp.power(2, lam)*z
-    else:
-        pmin = mp.zero
-        pmax = mp.one
-    return (pmin, pmax)
-
-
-def _refine_bracket(pmin, pmax, z, lam):
+def _log_p_bracket(z, lam):
     """
-    Use simple bisection to refine the bracket.
+    Get a bracket for log(p) for solving invcdf(p, lam) = z, with z < 0.
     """
-    m = (pmin + pmax) / 2
-    delta = mp.sqrt(mp.eps)
-    sign_min = mp.sign(invcdf(pmin, lam) - z)
-    sign_max = mp.sign(invcdf(pmax, lam) - z)
-    while (pmax - pmin) / m > delta:
-        pmid = (pmin + pmax) / 2
-        sign_mid = mp.sign(invcdf(pmid, lam) - z)
-        if sign_mid == 0:
-            # Not likely...
-            return (pmid, pmid)
-        if sign_mid == sign_min:
-            pmin = pmid
-        else:
-            pmax = pmid
-    return (pmin, pmax)
+    u1 = -mp.ln2
+    delta = mp.one
+    u0 = u1 - delta
+    while invcdf(mp.exp(u0), lam) > z:
+        u1 = u0
+        delta = 2*delta
+        u0 = u1 - delta
+    return (u0, u1)
 
 
 @mp.extradps(10)
@@ -128,13 +94,20 @@ def cdf(x, lam, loc=0, scale=1):
     if lam == 0:
         return mp.one/(mp.exp(-z) + 1)
 
-    pmin, pmax = _cdf_solver_bracket(z, lam)
-    pmin, pmax = _refine_bracket(pmin, pmax, z, lam)
+    if z == mp.ninf:
+        return mp.zero
+    if z == mp.inf:
+        return mp.one
+    if z > 0:
+        return mp.one - cdf(-z, lam)
 
+    # Solve for log(p) instead of p, so that small values of p are found
+    # with full relative precision.
     with mp.extradps((mp.dps + 1) // 2):
-        p = findroot(lambda t: invcdf(t, lam) - z, [pmin, pmax],
-                     solver="anderson")
-    return p
+        u = findroot(lambda t: (invcdf(mp.exp(t), lam) - z)/(1 - z),
+                     _log_p_bracket(z, lam), solver="illinois",
+                     maxsteps=4*mp.prec)
+        return mp.exp(u)
 
 
 def sf(x, lam, loc=0, scale=1):
-- 
2.43.0


From fcca5e2b80f1607bee45237fca85c2034092002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:24 +0000
Subject: [PATCH 08/69] fix: logistic.cdf and sf lost all relative accuracy in
 the tails

Property: C01
---
 mpsci/distributions/logistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/logistic.py b/mpsci/distributions/logistic.py
index da23bd2..f3129ee 100644
--- a/mpsci/distributions/logistic.py
+++ b/mpsci/distributions/logistic.py
@@ -46,7 +46,7 @@ def cdf(x, loc=0, scale=1):
     loc, scale = _validate_loc_scale(loc, scale)
     x = mp.mpf(x)
     z = (x - loc) / scale
-    return (1 + mp.tanh(z/2)) / 2
+    return 1 / (1 + mp.exp(-z))
 
 
 @mp.extradps(5)
@@ -57,7 +57,7 @@ def sf(x, loc=0, scale=1):
     loc, scale = _validate_loc_scale(loc, scale)
     x = mp.mpf(x)
     z = (x - loc) / scale
-    return (1 - mp.tanh(z/2)) / 2
+    return 1 / (1 + mp.exp(z))
 
 
 @mp.extradps(5)
-- 
2.43.0


From 3ab4e79641727bb75f2d9ba34171c323cc86112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:50 +0000
Subject: [PATCH 09/69] fix: chi, chi2 and gamma densities were nan at 0 for
 exponential-type shapes

Property: C02,C03
---
 mpsci/distributions/chi.py   | 3 ++-
 mpsci/distributions/chi2.py  | 3 ++-
 mpsci/distributions/gamma.py | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/chi.py b/mpsci/distributions/chi.py
index b634a05..1ec4771 100644
--- a/mpsci/distributions/chi.py
+++ b/mpsci/distributions/chi.py
@@ -6,6 +6,7 @@ Chi distribution
 import re
 from mpmath import mp
 from ._common import _validate_moment_n
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'mode', 'mean', 'var',
@@ -58,7 +59,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = ((k - 1)*mp.log(x) - x**2/2 - ((k/2) - 1)*mp.log(2)
+    p = (xlogy(k - 1, x) - x**2/2 - ((k/2) - 1)*mp.log(2)
             - mp.loggamma(k/2))
     return p
 
diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index 3b922a9..4b68783 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -5,6 +5,7 @@ Chi-square distribution
 
 from mpmath import mp
 from ._common import _validate_moment_n, _generic_inv
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf',
@@ -41,7 +42,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = -x/2 + (k/2 - 1)*mp.log(x/2) - mp.log(2) - mp.loggamma(k/2)
+    p = -x/2 + xlogy(k/2 - 1, x/2) - mp.log(2) - mp.loggamma(k/2)
     return p
 
 
diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index f487988..47b3a15 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -13,7 +13,7 @@ Another common parameterization is shape `k` and the "rate" `lambda`.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       _find_bracket)
-from ..fun import digammainv
+from ..fun import digammainv, xlogy
 from .. import stats
 from . import normal
 
@@ -61,7 +61,7 @@ def logpdf(x, k, scale):
     if x < 0:
         return mp.ninf
     return (-mp.loggamma(k) - k*mp.log(scale) +
-            (k - 1)*mp.log(x) - x/scale)
+            xlogy(k - 1, x) - x/scale)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 72044b73e20560617bff2123b8ef31de6cf6ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 10/69] fix: kumaraswamy.logpdf was nan at the ends for a = 1
 or b = 1

Property: C03
---
 mpsci/distributions/kumaraswamy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index c0ba9cc..6c3daa5 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -22,6 +22,7 @@ from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       Initial)
 from ..fun._powm1 import inv_powm1
+from ..fun import xlogy, xlog1py
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -64,8 +65,8 @@ def logpdf(x, a, b):
     x = mp.mpf(x)
     if x < 0 or x > 1:
         return mp.ninf
-    return (mp.log(a) + mp.log(b) + (a - 1)*mp.log(x)
-            + (b - 1)*mp.log1p(-x**a))
+    return (mp.log(a) + mp.log(b) + xlogy(a - 1, x)
+            + xlog1py(b - 1, -x**a))
 
 
 @mp.extradps(5)
-- 
2.43.0


From 5f545f9c1e8e2fcc5d7cbbc77582445e188e30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 11/69] fix: genpareto.logpdf was nan at the end point for xi =
 -1

Property: C03
---
 mpsci/distributions/genpareto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/genpareto.py b/mpsci/distributions/genpareto.py
index 9ebe2b7..8622312 100644
--- a/mpsci/distributions/genpareto.py
+++ b/mpsci/distributions/genpareto.py
@@ -6,7 +6,7 @@ Generalized Pareto distribution
 
 from mpmath import mp
 from ._common import _validate_p, _validate_x_bounds
-from ..fun import pow1pm1
+from ..fun import pow1pm1, xlogy
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -50,7 +50,7 @@ def logpdf(x, xi, mu=0, sigma=1):
         p = -mp.inf
     else:
         if xi != 0:
-            logt = -(1/xi + 1)*mp.log(1 + xi*z)
+            logt = xlogy(-(1/xi + 1), 1 + xi*z)
         else:
             logt = -z
         p = logt - mp.log(sigma)
-- 
2.43.0


From 9dad0815ce5428bc322c2facd73a3f1f7a691517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 12/69] fix: genextreme.logpdf was -inf at the end point for xi
 = -1

Property: C03
---
 mpsci/distributions/genextreme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index e908b62..0904aea 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -16,7 +16,7 @@ of the corresponding shape parameter `c` in `scipy.stats.genextreme`.
 
 from mpmath import mp
 from ._common import _validate_p, _validate_moment_n
-from mpsci.fun import pow1pm1
+from mpsci.fun import pow1pm1, xlog1py
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'logcdf', 'invcdf', 'sf', 'logsf', 'invsf',
@@ -66,7 +66,7 @@ def logpdf(x, xi, mu=0, sigma=1):
         bound = mu - sigma/xi
         if xi > 0 and x <= bound:
             return mp.ninf
-        if xi < 0 and x >= bound:
+        if xi < 0 and x > bound:
             return mp.ninf
 
     # Formula from wikipedia, which has a sign convention for xi that
@@ -74,11 +74,11 @@ def logpdf(x, xi, mu=0, sigma=1):
     z = (x - mu)/sigma
     if xi != 0:
         t = mp.power(1 + z*xi, -1/xi)
-        logt = -mp.log1p(z*xi)/xi
+        logt = xlog1py(-(xi + 1)/xi, z*xi)
     else:
         t = mp.exp(-z)
         logt = -z
-    p = (xi + 1)*logt - t - mp.log(sigma)
+    p = logt - t - mp.log(sigma)
     return p
 
 
-- 
2.43.0


From 86a58de20bd7cf14d4b4c7cb88e4a300596b1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 13/69] fix: genexpon.logpdf ignored the scale

Property: C03
---
 mpsci/distributions/genexpon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 5c3a8e0..974aeff 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -55,7 +55,8 @@ def logpdf(x, a, b, c, loc=0, scale=1):
     z = (x - loc) / scale
     s = a + b
     r = b / c
-    return mp.log(a + b*(-mp.expm1(-c*z))) + (-s*z + r*(-mp.expm1(-c*z)))
+    return (mp.log(a + b*(-mp.expm1(-c*z)))
+            + (-s*z + r*(-mp.expm1(-c*z))) - mp.log(scale))
 
 
 @mp.extradps(5)
-- 
2.43.0


From e9416e90b7064395381cffab8f61a7fa838c446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 14/69] fix: burr12 cdf and logcdf lost accuracy in the lower
 tail

Property: C01,C03
---
 mpsci/distributions/burr12.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 91c0c48..7efcf40 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -61,8 +61,7 @@ def cdf(x, c, d, scale):
     x = mp.mpf(x)
     if x <= 0:
         return mp.zero
-    # TO DO: See if the use of logsf (as in scipy) is worthwhile.
-    return 1 - sf(x, c, d, scale)
+    return -mp.expm1(logsf(x, c, d, scale))
 
 
 @mp.extradps(5)
@@ -84,7 +83,10 @@ def logcdf(x, c, d, scale):
     x = mp.mpf(x)
     if x <= 0:
         return mp.ninf
-    return mp.log1p(-sf(x, c, d, scale))
+    logs = logsf(x, c, d, scale)
+    if logs < -1:
+        return mp.log1p(-mp.exp(logs))
+    return mp.log(-mp.expm1(logs))
 
 
 @mp.extradps(5)
-- 
2.43.0


From e420ea6bd6d85b93d161743f7e63cb02e578b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 15/69] fix: exponweib pdf and logpdf were nan at x = 0

Property: C02,C03
---
 mpsci/distributions/exponweib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 852ff07..7a60e21 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -20,6 +20,13 @@ def _validate_params(a, c, scale):
     return mp.mpf(a), mp.mpf(c), mp.mpf(scale)
 
 
+def _logpdf_at_zero(a, c, scale):
+    # Near 0, the PDF behaves like a*c/scale * (x/scale)**(a*c - 1).
+    if a*c == 1:
+        return -mp.log(scale)
+    return mp.ninf if a*c > 1 else mp.inf
+
+
 @mp.extradps(5)
 def pdf(x, a, c, scale=1):
     """
@@ -31,6 +38,8 @@ def pdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0:
+        return mp.exp(_logpdf_at_zero(a, c, scale))
     z = x/scale
     p = (a * c / scale * z**(c-1) * (-mp.expm1(-z**c))**(a - 1) *
          mp.exp(-z**c))
@@ -48,6 +57,8 @@ def logpdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
+    if x == 0:
+        return _logpdf_at_zero(a, c, scale)
     z = x/scale
     logp = (mp.log(a)
             + mp.log(c)
-- 
2.43.0


From 0f3616db0a02f6e193ec86577195464f494426ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 16/69] fix: ncf.pdf was nan at x = 0 with dfn = 2

Property: C02
---
 mpsci/distributions/ncf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index 3166533..32968b9 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -40,6 +40,10 @@ def pdf(x, dfn, dfd, nc):
     dfn = mp.mpf(dfn)
     dfd = mp.mpf(dfd)
     nc = mp.mpf(nc)
+    if x == 0:
+        if dfn == 2:
+            return mp.exp(-nc/2)
+        return mp.zero if dfn > 2 else mp.inf
     p = mp.nsum(_pdfk, [0, mp.inf])
     return p
 
-- 
2.43.0


From e8602ed65e574f114ecdceadf426630f88a7f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:01 +0000
Subject: [PATCH 17/69] fix: quantile functions failed to find the root or
 ignored loc (gamma, loggamma, betaprime, beta, f, studentt, maxwell,
 nakagami, invgauss, invgamma, chi2)

Property: C04
---
 mpsci/distributions/_common.py   | 103 ++++++++++++++++++++++++++++++-
 mpsci/distributions/beta.py      |  25 ++++----
 mpsci/distributions/betaprime.py |  20 ++----
 mpsci/distributions/chi2.py      |   2 +
 mpsci/distributions/f.py         |  22 ++++---
 mpsci/distributions/gamma.py     |  24 +++----
 mpsci/distributions/invgamma.py  |  23 ++-----
 mpsci/distributions/invgauss.py  |  22 ++-----
 mpsci/distributions/loggamma.py  |  12 ++--
 mpsci/distributions/maxwell.py   |  30 +++------
 mpsci/distributions/nakagami.py  |  22 ++++---
 mpsci/distributions/studentt.py  |  13 ++--
 12 files changed, 181 insertions(+), 137 deletions(-)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index edf9438..a1fab29 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -285,15 +285,116 @@ def _generic_inv(func, p, direction, solver='bisect', **kwargs):
     The other classes of solvers (i.e. not bisection-based, such as 'secant'
     and 'halley') have not been tested, and might have convergence issues.
     """
+    p = _validate_p(p)
+    if p == 0:
+        return mp.zero if direction == 1 else mp.inf
+    if p == 1:
+        return mp.inf if direction == 1 else mp.zero
     # Note: 2*mp.prec is probably overkill...
     with mp.workprec(2*mp.prec):
         maxsteps = kwargs.pop('maxsteps', 2*mp.prec)
         # Find a bracket for the root.
         k_low, k_high = _find_bracket_by_expansion_0_inf(func, p,
                                                          direction=direction)
+        # Solve for log(k), so small values have full relative precision.
+        k_low, k_high = mp.log(k_low), mp.log(k_high)
         if solver in ['bisect', 'anderson', 'illinois', 'pegasus']:
             k0 = (k_low, k_high)
         else:
             k0 = (k_low + k_high)/2
-        return mp.findroot(lambda k: func(k) - p,
+        logk = mp.findroot(lambda t: func(mp.exp(t))/p - 1,
                            x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)
+        return mp.exp(logk)
+
+
+def _inv_prob(func, p, a, b, increasing):
+    """
+    Solve func(x) = p for x, where func is a CDF or a survival function.
+
+    (a, b) is the interval on which `func` is strictly monotone; either
+    end may be infinite.  `increasing` tells the direction of `func`.
+    It must be true that 0 < p < 1.
+
+    The equation log(func(x)) = log(p) is solved by bracketing, with x
+    parametrized so that solutions extremely close to an end point (or
+    extremely large) are found with full relative precision.
+    """
+    with mp.workprec(mp.prec + mp.prec//2 + 20):
+        a = mp.mpf(a)
+        b = mp.mpf(b)
+        logp = mp.log(p)
+
+        if mp.isinf(a) and mp.isinf(b):
+            x_of = mp.sinh
+        elif mp.isinf(b):
+            def x_of(t):
+                return a + mp.exp(t)
+        elif mp.isinf(a):
+            def x_of(t):
+                return b - mp.exp(-t)
+        else:
+            def x_of(t):
+                if t < 0:
+                    return a + (b - a)/(1 + mp.exp(-t))
+                return b - (b - a)/(1 + mp.exp(t))
+
+        def g(t):
+            y = func(x_of(t))
+            if y <= 0:
+                return mp.ninf
+            return mp.log(y) - logp
+
+        # Find t0 and t1 such that g(t0) and g(t1) have opposite signs.
+        t0, t1 = -mp.one, mp.one
+        g0, g1 = g(t0), g(t1)
+        step = mp.one
+        while (g0 > 0) == increasing and g0 != 0:
+            t1, g1 = t0, g0
+            step *= 2
+            t0 -= step
+            g0 = g(t0)
+        step = mp.one
+        while (g1 < 0) == increasing and g1 != 0:
+            t0, g0 = t1, g1
+            step *= 2
+            t1 += step
+            g1 = g(t1)
+
+        # The Illinois method, with a bisection step whenever the bracket
+        # is not shrinking fast enough or the function value is not finite.
+        tol = mp.ldexp(1, 8 - mp.prec)
+        width = t1 - t0
+        side = 0
+        count = 0
+        while g0 != 0 and g1 != 0 and t1 - t0 > tol*max(1, abs(t0)):
+            count += 1
+            if count % 3 == 0 and t1 - t0 > width/4:
+                use_bisection = True
+            else:
+                use_bisection = not (mp.isfinite(g0) and mp.isfinite(g1))
+            if count % 3 == 0:
+                width = t1 - t0
+            if use_bisection:
+                t = (t0 + t1)/2
+            else:
+                t = (g1*t0 - g0*t1)/(g1 - g0)
+                if t <= t0 or t >= t1:
+                    t = (t0 + t1)/2
+                    if t <= t0 or t >= t1:
+                        break
+            gt = g(t)
+            if (gt > 0) == (g1 > 0):
+                t1, g1 = t, gt
+                if side == 1:
+                    g0 = g0/2
+                side = 1
+            else:
+                t0, g0 = t, gt
+                if side == -1:
+                    g1 = g1/2
+                side = -1
+        if g0 == 0:
+            return x_of(t0)
+        if g1 == 0:
+            return x_of(t1)
+        return x_of(t0 if abs(g0) < abs(g1) else t1)
diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index 1344daa..4d925a1 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -8,7 +8,7 @@ This is the "standard" beta distribution, with shape parameters
 
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
-                      _find_bracket, isfixed)
+                      _inv_prob, isfixed)
 from .. import fun as _fun
 from ..stats import mean as _mean, var as _var
 
@@ -111,12 +111,11 @@ def invcdf(p, a, b):
     """
     a, b = _validate_a_b(a, b)
     p = _validate_p(p)
-
-    x0, x1 = _find_bracket(lambda x: cdf(x, a, b), p, 0, 1)
-    if x0 == x1:
-        return x0
-
-    return _fun.betaincinv(a, b, p, method=('bisect', [x0, x1]))
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.one
+    return _inv_prob(lambda x: cdf(x, a, b), p, 0, 1, increasing=True)
 
 
 @mp.extradps(5)
@@ -126,13 +125,11 @@ def invsf(p, a, b):
     """
     a, b = _validate_a_b(a, b)
     p = _validate_p(p)
-
-    x0, x1 = _find_bracket(lambda x: sf(x, a, b), p, 0, 1)
-    if x0 == x1:
-        return x0
-
-    return _fun.betaincinv(a, b, p, complement=True,
-                           method=('bisect', [x0, x1]))
+    if p == 0:
+        return mp.one
+    if p == 1:
+        return mp.zero
+    return _inv_prob(lambda x: sf(x, a, b), p, 0, 1, increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index 4656274..c4bb889 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -28,7 +28,7 @@ the scale to 1.
 """
 import re
 from mpmath import mp
-from ._common import (_validate_p, _validate_moment_n, _find_bracket,
+from ._common import (_validate_p, _validate_moment_n, _inv_prob,
                       _validate_x_bounds, Initial)
 from ..stats import mean as _mean
 from .. import fun as _fun
@@ -158,12 +158,8 @@ def invcdf(p, a, b, scale):
     if p == 1:
         return mp.inf
 
-    x0, x1 = _find_bracket(lambda x: cdf(x, a, b, scale), p, 0, mp.inf)
-    if x0 == x1:
-        return x0
-    x = mp.findroot(lambda x: cdf(x, a, b, scale) - p, x0=(x0, x1),
-                    solver='secant')
-    return x
+    return _inv_prob(lambda x: cdf(x, a, b, scale), p, 0, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -174,16 +170,12 @@ def invsf(p, a, b, scale):
     a, b, scale = _validate_params(a, b, scale)
     p = _validate_p(p)
     if p == 0:
-        return mp.one
+        return mp.inf
     if p == 1:
         return mp.zero
 
-    x0, x1 = _find_bracket(lambda x: sf(x, a, b, scale), p, 0, mp.inf)
-    if x0 == x1:
-        return x0
-    x = mp.findroot(lambda x: sf(x, a, b, scale) - p, x0=(x0, x1),
-                    solver='secant')
-    return x
+    return _inv_prob(lambda x: sf(x, a, b, scale), p, 0, mp.inf,
+                     increasing=False)
 
 
 def support(a, b, scale):
diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index 4b68783..ae67495 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -72,6 +72,7 @@ def invcdf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
     return _generic_inv(lambda x: cdf(x, k), p,
                         direction=1, solver=solver, **kwargs)
 
@@ -117,6 +118,7 @@ def invsf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
     return _generic_inv(lambda x: sf(x, k), p,
                         direction=-1, solver=solver, **kwargs)
 
diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index bed1895..4b6acdb 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -5,8 +5,8 @@ F distribution
 """
 
 from mpmath import mp
-from ._common import _validate_p
-from ..fun import logbeta, xlogy, xlog1py, betaincinv
+from ._common import _validate_p, _inv_prob
+from ..fun import logbeta, xlogy, xlog1py
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -90,9 +90,12 @@ def invcdf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
-    g = betaincinv(dfn/2, dfd/2, p, method='bisect')
-    # XXX Possible loss of precision in (1 - g):
-    return (dfd/dfn)*g/(1 - g)
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.inf
+    return _inv_prob(lambda x: cdf(x, dfn, dfd), p, 0, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -122,9 +125,12 @@ def invsf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
-    g = betaincinv(dfd/2, dfn/2, p, method='bisect')
-    # XXX Possible loss of precison in (1 - g):
-    return (dfd/dfn)*(1 - g)/g
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.zero
+    return _inv_prob(lambda x: sf(x, dfn, dfd), p, 0, mp.inf,
+                     increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 47b3a15..ffc2c8f 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -12,7 +12,7 @@ Another common parameterization is shape `k` and the "rate" `lambda`.
 
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
-                      _find_bracket)
+                      _inv_prob)
 from ..fun import digammainv, xlogy
 from .. import stats
 from . import normal
@@ -85,7 +85,7 @@ def invcdf(p, k, scale):
     """
     Inverse of the CDF of the gamma distribution.
     """
-    with mp.extradps(max(10, mp.dps)):
+    with mp.extradps(10):
         k, scale = _validate_k_scale(k, scale)
         p = _validate_p(p)
         if p == 0:
@@ -93,13 +93,8 @@ def invcdf(p, k, scale):
         if p == 1:
             return mp.inf
 
-        x0, x1 = _find_bracket(lambda x: cdf(x, k, scale), p, 0, mp.inf,
-                               nbisect=16)
-        if x0 == x1:
-            return x0
-        x = mp.findroot(lambda x: cdf(x, k, scale) - p, x0=(x0, x1),
-                        solver='secant')
-        return x
+        return _inv_prob(lambda x: cdf(x, k, scale), p, 0, mp.inf,
+                         increasing=True)
 
 
 @mp.extradps(5)
@@ -118,7 +113,7 @@ def invsf(p, k, scale):
     """
     Inverse of the survival function of the gamma distribution.
     """
-    with mp.extradps(max(10, mp.dps)):
+    with mp.extradps(10):
         k, scale = _validate_k_scale(k, scale)
         p = _validate_p(p)
         if p == 0:
@@ -126,13 +121,8 @@ def invsf(p, k, scale):
         if p == 1:
             return mp.zero
 
-        x0, x1 = _find_bracket(lambda x: sf(x, k, scale), p, 0, mp.inf,
-                               nbisect=16)
-        if x0 == x1:
-            return x0
-        x = mp.findroot(lambda x: sf(x, k, scale) - p, x0=(x0, x1),
-                        solver='secant')
-        return x
+        return _inv_prob(lambda x: sf(x, k, scale), p, 0, mp.inf,
+                         increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/invgamma.py b/mpsci/distributions/invgamma.py
index 9d64e59..46f80ca 100644
--- a/mpsci/distributions/invgamma.py
+++ b/mpsci/distributions/invgamma.py
@@ -14,7 +14,7 @@ we include here and in SciPy (see, for example, the wikipedia article [1]_).
 """
 
 from mpmath import mp
-from ._common import _validate_p, _validate_moment_n
+from ._common import _validate_p, _validate_moment_n, _inv_prob
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -84,15 +84,8 @@ def invcdf(p, a, loc=0, scale=1):
         return loc
     if p == 1:
         return mp.inf
-    # WIP... not updated yet...
-    x0 = mode(a, loc, scale)
-    # FIXME: This loop assumes convergence!
-    while True:
-        x1 = x0 + (p - cdf(x0, a, loc, scale))/pdf(x0, a, loc, scale)
-        if mp.almosteq(x1, x0):
-            break
-        x0 = x1
-    return x1
+    return _inv_prob(lambda x: cdf(x, a, loc, scale), p, loc, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -119,14 +112,8 @@ def invsf(p, a, loc=0, scale=1):
         return mp.inf
     if p == 1:
         return loc
-    x0 = mode(a, loc, scale)
-    # FIXME: This loop assumes convergence!
-    while True:
-        x1 = x0 - (p - sf(x0, a, loc, scale))/pdf(x0, a, loc, scale)
-        if mp.almosteq(x1, x0):
-            break
-        x0 = x1
-    return x1
+    return _inv_prob(lambda x: sf(x, a, loc, scale), p, loc, mp.inf,
+                     increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/invgauss.py b/mpsci/distributions/invgauss.py
index 83aab94..2c4454d 100644
--- a/mpsci/distributions/invgauss.py
+++ b/mpsci/distributions/invgauss.py
@@ -33,7 +33,7 @@ To go the other way::
 """
 
 from mpmath import mp
-from ._common import _validate_p, _validate_moment_n
+from ._common import _validate_p, _validate_moment_n, _inv_prob
 
 
 __all__ = ['pdf', 'logpdf',
@@ -132,14 +132,8 @@ def invcdf(p, m, loc=0, scale=1):
         return loc
     if p == 1:
         return mp.inf
-    x0 = mode(m, loc, scale)
-    # FIXME: This loop assumes convergence!
-    while True:
-        x1 = x0 + (p - cdf(x0, m, loc, scale))/pdf(x0, m, loc, scale)
-        if mp.almosteq(x1, x0):
-            break
-        x0 = x1
-    return x1
+    return _inv_prob(lambda x: cdf(x, m, loc, scale), p, loc, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -187,14 +181,8 @@ def invsf(p, m, loc=0, scale=1):
         return mp.inf
     if p == 1:
         return loc
-    x0 = mode(m, loc, scale)
-    # FIXME: This loop assumes convergence!
-    while True:
-        x1 = x0 - (p - sf(x0, m, loc, scale))/pdf(x0, m, loc, scale)
-        if mp.almosteq(x1, x0):
-            break
-        x0 = x1
-    return x1
+    return _inv_prob(lambda x: sf(x, m, loc, scale), p, loc, mp.inf,
+                     increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 1d9c665..8f66eb1 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -17,7 +17,7 @@ implementation of the log-gamma distribution.
 from mpmath import mp
 from ..fun import digammainv as _digammainv
 from ..stats import mean as _mean
-from ._common import (_validate_p, _validate_x_bounds, _find_bracket, Initial,
+from ._common import (_validate_p, _validate_x_bounds, _inv_prob, Initial,
                       isfixed)
 
 
@@ -91,9 +91,8 @@ def invcdf(p, k, theta):
     if p == 1:
         return mp.inf
     k, theta = _validate_k_theta(k, theta)
-    x0, x1 = _find_bracket(lambda t: cdf(t, k, theta), p, -mp.inf, mp.inf)
-    root = mp.findroot(lambda t: cdf(t, k, theta) - p, x0=(x0, x1))
-    return root
+    return _inv_prob(lambda t: cdf(t, k, theta), p, mp.ninf, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -124,9 +123,8 @@ def invsf(p, k, theta):
     if p == 1:
         return mp.ninf
     k, theta = _validate_k_theta(k, theta)
-    x0, x1 = _find_bracket(lambda t: sf(t, k, theta), p, -mp.inf, mp.inf)
-    root = mp.findroot(lambda t: sf(t, k, theta) - p, x0)
-    return root
+    return _inv_prob(lambda t: sf(t, k, theta), p, mp.ninf, mp.inf,
+                     increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/maxwell.py b/mpsci/distributions/maxwell.py
index edfe226..04827d1 100644
--- a/mpsci/distributions/maxwell.py
+++ b/mpsci/distributions/maxwell.py
@@ -15,7 +15,7 @@ The parametrization used here matches that of SciPy.
 """
 
 from mpmath import mp
-from ._common import _validate_p, _find_bracket
+from ._common import _validate_p, _inv_prob
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -82,19 +82,11 @@ def invcdf(p, loc=0, scale=1):
     p = _validate_p(p)
     loc, scale = _validate_params(loc, scale)
     if p == 0:
-        return mp.zero
+        return loc
     if p == 1:
         return mp.inf
-    x0, x1 = _find_bracket(lambda x: cdf(x, loc, scale), p, 0, mp.inf)
-    if x0 == x1:
-        return x0
-    try:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0, x1),
-                        solver='secant')
-    except Exception:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
-                        solver='newton')
-    return x
+    return _inv_prob(lambda x: cdf(x, loc, scale), p, loc, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -124,17 +116,9 @@ def invsf(p, loc=0, scale=1):
     if p == 0:
         return mp.inf
     if p == 1:
-        return mp.zero
-    x0, x1 = _find_bracket(lambda x: sf(x, loc, scale), p, 0, mp.inf)
-    if x0 == x1:
-        return x0
-    try:
-        x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0, x1),
-                        solver='secant')
-    except Exception:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
-                        solver='newton')
-    return x
+        return loc
+    return _inv_prob(lambda x: sf(x, loc, scale), p, loc, mp.inf,
+                     increasing=False)
 
 
 def support(loc=0, scale=1):
diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 296aec2..7c96f33 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -20,7 +20,7 @@ infinity as x approaches 0.
 
 from mpmath import mp
 from mpsci import stats
-from ._common import _validate_x_bounds, _validate_p,  _find_bracket
+from ._common import _validate_x_bounds, _validate_p,  _inv_prob
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -87,10 +87,12 @@ def invcdf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
-    with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: cdf(x, nu, loc, scale), p, 0, mp.inf)
-        root = mp.findroot(lambda t: cdf(t, nu, loc, scale) - p, x0=(x0, x1))
-    return root
+    if p == 0:
+        return loc
+    if p == 1:
+        return mp.inf
+    return _inv_prob(lambda x: cdf(x, nu, loc, scale), p, loc, mp.inf,
+                     increasing=True)
 
 
 @mp.extradps(5)
@@ -116,10 +118,12 @@ def invsf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
-    with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: sf(x, nu, loc, scale), p, 0, mp.inf)
-        root = mp.findroot(lambda t: sf(t, nu, loc, scale) - p, x0=(x0, x1))
-    return root
+    if p == 1:
+        return loc
+    if p == 0:
+        return mp.inf
+    return _inv_prob(lambda x: sf(x, nu, loc, scale), p, loc, mp.inf,
+                     increasing=False)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/studentt.py b/mpsci/distributions/studentt.py
index 8f32675..3f20dbb 100644
--- a/mpsci/distributions/studentt.py
+++ b/mpsci/distributions/studentt.py
@@ -4,7 +4,7 @@ Student's t distribution
 """
 
 from mpmath import mp
-from ._common import _validate_p, _find_bracket
+from ._common import _validate_p, _inv_prob
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'invcdf', 'invsf',
@@ -110,14 +110,9 @@ def invcdf(p, df):
     else:
         p0 = p
 
-    x0, x1 = _find_bracket(lambda x: cdf(x, df), p0, mp.ninf, mp.inf)
-    if x0 == x1:
-        return x0
-
-    def _func(x):
-        return cdf(x, df) - p0
-
-    x = mp.findroot(_func, (x0, x1), solver='anderson')
+    if p0 == 0.5:
+        return mp.zero
+    x = _inv_prob(lambda x: cdf(x, df), p0, mp.ninf, 0, increasing=True)
     if p > 0.5:
         x = -x
 
-- 
2.43.0


From 21d109e0c19070210fd3d5b532ef607943697a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:56 +0000
Subject: [PATCH 18/69] fix: quantile functions at p = 0 and 1 and for tiny p
 (normal, lognormal, levy, power_normal, truncnorm, genexpon, exponweib,
 burr12, kumaraswamy, pareto, genextreme, gamma_gompertz, hypsecant, cauchy,
 benini, benktander2, loggamma)

Property: C04
---
 mpsci/distributions/benini.py         |  4 ++++
 mpsci/distributions/benktander2.py    |  4 ++++
 mpsci/distributions/burr12.py         |  7 ++++++-
 mpsci/distributions/cauchy.py         |  8 ++++++++
 mpsci/distributions/exponweib.py      | 20 ++++++++++++++++++--
 mpsci/distributions/gamma_gompertz.py |  5 ++++-
 mpsci/distributions/genexpon.py       | 16 +++++++++++++---
 mpsci/distributions/genextreme.py     |  4 ++++
 mpsci/distributions/hypsecant.py      |  4 ++++
 mpsci/distributions/kumaraswamy.py    |  4 ++--
 mpsci/distributions/levy.py           | 11 ++++++-----
 mpsci/distributions/loggamma.py       |  9 ++++-----
 mpsci/distributions/lognormal.py      |  7 +++----
 mpsci/distributions/normal.py         | 12 ++++++++++--
 mpsci/distributions/pareto.py         |  4 ++++
 mpsci/distributions/power_normal.py   |  9 ++++++++-
 mpsci/distributions/truncnorm.py      | 19 +++++++++++++++----
 17 files changed, 117 insertions(+), 30 deletions(-)

diff --git a/mpsci/distributions/benini.py b/mpsci/distributions/benini.py
index ddb1f10..61401ff 100644
--- a/mpsci/distributions/benini.py
+++ b/mpsci/distributions/benini.py
@@ -156,6 +156,8 @@ def invcdf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log1p(-p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
@@ -198,6 +200,8 @@ def invsf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log(p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index 5ac824e..a828a5a 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -95,6 +95,8 @@ def invcdf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 1:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log1p(-p)/a
     else:
@@ -113,6 +115,8 @@ def invsf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 0:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log(p)/a
     else:
diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 7efcf40..42c264f 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -6,6 +6,7 @@ Burr type XII probability distribution
 
 from mpmath import mp
 from mpsci.stats import mean as _fmean
+from ..fun import pow1pm1
 from mpsci.distributions._common import (_validate_p,  _validate_x_bounds,
                                          Initial, isfixed)
 
@@ -71,7 +72,9 @@ def invcdf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
-    return scale * mp.powm1(1 - p, -1/d)**(1/c)
+    if p == 1:
+        return mp.inf
+    return scale * pow1pm1(-p, -1/d)**(1/c)
 
 
 @mp.extradps(5)
@@ -108,6 +111,8 @@ def invsf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return scale * mp.powm1(p, -1/d)**(1/c)
 
 
diff --git a/mpsci/distributions/cauchy.py b/mpsci/distributions/cauchy.py
index f19e97d..e86c80b 100644
--- a/mpsci/distributions/cauchy.py
+++ b/mpsci/distributions/cauchy.py
@@ -52,6 +52,10 @@ def invcdf(p, loc=0, scale=1):
     """Quantile function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.ninf
+    if p == 1:
+        return mp.inf
     return loc - scale*mp.cot(mp.pi*p)
 
 
@@ -69,6 +73,10 @@ def invsf(p, loc=0, scale=1):
     """Inverse of the survival function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.ninf
     return loc + scale*mp.cot(mp.pi*p)
 
 
diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 7a60e21..e37229b 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -94,7 +94,15 @@ def invcdf(p, a, c, scale=1):
     """
     a, c, scale = _validate_params(a, c, scale)
     p = _validate_p(p)
-    return scale*(-mp.log1p(-p**(1/a)))**(1/c)
+    if p == 1:
+        return mp.inf
+    # log(1 - p**(1/a)), without cancellation.
+    t = mp.log(p)/a
+    if t < -mp.ln2:
+        logq = mp.log1p(-mp.exp(t))
+    else:
+        logq = mp.log(-mp.expm1(t))
+    return scale*(-logq)**(1/c)
 
 
 @mp.extradps(5)
@@ -117,7 +125,15 @@ def invsf(p, a, c, scale=1):
     """
     a, c, scale = _validate_params(a, c, scale)
     p = _validate_p(p)
-    return scale*(-mp.log(-mp.expm1(mp.log1p(-p)/a)))**(1/c)
+    if p == 0:
+        return mp.inf
+    # log(1 - (1 - p)**(1/a)), without cancellation.
+    t = mp.log1p(-p)/a
+    if t < -mp.ln2:
+        logq = mp.log1p(-mp.exp(t))
+    else:
+        logq = mp.log(-mp.expm1(t))
+    return scale*(-logq)**(1/c)
 
 
 def support(a, c, scale=1):
diff --git a/mpsci/distributions/gamma_gompertz.py b/mpsci/distributions/gamma_gompertz.py
index 4ed4295..9b7439c 100644
--- a/mpsci/distributions/gamma_gompertz.py
+++ b/mpsci/distributions/gamma_gompertz.py
@@ -86,6 +86,8 @@ def invcdf(p, c, beta, scale):
     """
     c, beta, scale = _validate_params(c, beta, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     r = pow1pm1(-p, -1/c)
     return scale * mp.log1p(beta * r)
 
@@ -113,8 +115,9 @@ def invsf(p, c, beta, scale):
     """
     c, beta, scale = _validate_params(c, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = mp.powm1(p, -1/c)
-    scale * mp.log1p(beta * r)
     return scale * mp.log1p(beta * r)
 
 
diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 974aeff..5bf561e 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -92,9 +92,15 @@ def invcdf(p, a, b, c, loc=0, scale=1):
     """
     p = _validate_p(p)
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
-    r = b/(a + b)
-    s = r/c - mp.log1p(-p)/(a + b)
-    x = s + mp.lambertw(-r*mp.exp(-s*c))/c
+    if p == 0:
+        return loc
+    if p == 1:
+        return mp.inf
+    # The extra precision is lost in the subtraction when p is small.
+    with mp.extraprec(max(0, -mp.mag(p))):
+        r = b/(a + b)
+        s = r/c - mp.log1p(-p)/(a + b)
+        x = s + mp.lambertw(-r*mp.exp(-s*c))/c
     return loc + scale*x
 
 
@@ -105,6 +111,10 @@ def invsf(p, a, b, c, loc=0, scale=1):
     """
     p = _validate_p(p)
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return loc
     r = b/(a + b)
     s = r/c - mp.log(p)/(a + b)
     x = s + mp.lambertw(-r*mp.exp(-s*c))/c
diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index 0904aea..c205217 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -118,6 +118,8 @@ def invcdf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if p == 1:
+        return support(xi, mu, sigma)[1]
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log(p), -xi)
     else:
@@ -154,6 +156,8 @@ def invsf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if p == 0:
+        return support(xi, mu, sigma)[1]
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log1p(-p), -xi)
     else:
diff --git a/mpsci/distributions/hypsecant.py b/mpsci/distributions/hypsecant.py
index f6ac617..84a0f92 100644
--- a/mpsci/distributions/hypsecant.py
+++ b/mpsci/distributions/hypsecant.py
@@ -76,6 +76,8 @@ def invcdf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*mp.log(mp.tan(mp.pi*p/2))
 
 
@@ -86,6 +88,8 @@ def invsf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.ninf
     return loc - scale*mp.log(mp.tan(mp.pi*p/2))
 
 
diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 6c3daa5..d7f0390 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -21,7 +21,7 @@ https://en.wikipedia.org/wiki/Kumaraswamy_distribution.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       Initial)
-from ..fun._powm1 import inv_powm1
+from ..fun._powm1 import inv_powm1, pow1pm1
 from ..fun import xlogy, xlog1py
 
 
@@ -108,7 +108,7 @@ def invcdf(p, a, b):
         return mp.zero
     if p == 1:
         return mp.one
-    return inv_powm1(-inv_powm1(-p, b), a)
+    return mp.power(-pow1pm1(-p, 1/b), 1/a)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index 0622caa..fd06f21 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -14,6 +14,7 @@ information.
 """
 
 from mpmath import mp
+from . import normal
 from ._common import _validate_p, _validate_loc_scale
 
 
@@ -22,10 +23,6 @@ __all__ = ['logpdf', 'pdf', 'cdf', 'invcdf', 'sf', 'invsf',
 
 
 @mp.extradps(5)
-def _erfcinv(y):
-    return mp.erfinv(1 - y)
-
-
 @mp.extradps(5)
 def logpdf(x, mu=0, sigma=1):
     """
@@ -69,7 +66,9 @@ def invcdf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
-    return mu + sigma / (2*_erfcinv(p)**2)
+    if p == 1:
+        return mp.inf
+    return mu + sigma / normal.invcdf(p/2)**2
 
 
 @mp.extradps(5)
@@ -92,6 +91,8 @@ def invsf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
+    if p == 0:
+        return mp.inf
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 8f66eb1..bbe4bc2 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -17,7 +17,8 @@ implementation of the log-gamma distribution.
 from mpmath import mp
 from ..fun import digammainv as _digammainv
 from ..stats import mean as _mean
-from ._common import (_validate_p, _validate_x_bounds, _inv_prob, Initial,
+from . import gamma
+from ._common import (_validate_p, _validate_x_bounds, Initial,
                       isfixed)
 
 
@@ -91,8 +92,7 @@ def invcdf(p, k, theta):
     if p == 1:
         return mp.inf
     k, theta = _validate_k_theta(k, theta)
-    return _inv_prob(lambda t: cdf(t, k, theta), p, mp.ninf, mp.inf,
-                     increasing=True)
+    return theta*mp.log(gamma.invcdf(p, k, 1))
 
 
 @mp.extradps(5)
@@ -123,8 +123,7 @@ def invsf(p, k, theta):
     if p == 1:
         return mp.ninf
     k, theta = _validate_k_theta(k, theta)
-    return _inv_prob(lambda t: sf(t, k, theta), p, mp.ninf, mp.inf,
-                     increasing=False)
+    return theta*mp.log(gamma.invsf(p, k, 1))
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/lognormal.py b/mpsci/distributions/lognormal.py
index e59255e..aa97a52 100644
--- a/mpsci/distributions/lognormal.py
+++ b/mpsci/distributions/lognormal.py
@@ -8,6 +8,7 @@ parameters as used in `scipy.stats.lognorm`.
 """
 
 from mpmath import mp
+from . import normal
 from ._common import _validate_p, _validate_moment_n, _validate_x_bounds
 
 
@@ -88,9 +89,7 @@ def invcdf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_params(mu, sigma)
-    a = mp.erfinv(2*p - 1)
-    x = mp.exp(mp.sqrt(2)*sigma*a + mu)
-    return x
+    return mp.exp(normal.invcdf(p, mu, sigma))
 
 
 @mp.extradps(5)
@@ -100,7 +99,7 @@ def invsf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_params(mu, sigma)
-    return invcdf(1 - p, mu, sigma)
+    return mp.exp(normal.invsf(p, mu, sigma))
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/normal.py b/mpsci/distributions/normal.py
index 99794f3..ad8cb2d 100644
--- a/mpsci/distributions/normal.py
+++ b/mpsci/distributions/normal.py
@@ -54,6 +54,14 @@ def sf(x, mu=0, sigma=1):
     return mp.ncdf(-x + 2*mu, mu, sigma)
 
 
+def _tail_bits(p):
+    # Extra precision required to represent 1 - 2*p for small p.
+    p = _validate_p(p)
+    if p == 0:
+        return 0
+    return max(0, -mp.mag(p))
+
+
 def invcdf(p, mu=0, sigma=1):
     """
     Normal distribution inverse CDF.
@@ -61,7 +69,7 @@ def invcdf(p, mu=0, sigma=1):
     This function is also known as the quantile function or the percent
     point function.
     """
-    with mp.extradps(mp.dps):
+    with mp.extraprec(mp.prec + _tail_bits(p)):
         p = _validate_p(p)
         mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
         a = mp.erfinv(2*p - 1)
@@ -73,7 +81,7 @@ def invsf(p, mu=0, sigma=1):
     """
     Inverse of the survival function of the normal distribution.
     """
-    with mp.extradps(mp.dps):
+    with mp.extraprec(mp.prec + _tail_bits(p)):
         p = _validate_p(p)
         mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
         a = mp.erfinv(1 - 2*p)
diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index 16e9812..eed9657 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -82,6 +82,8 @@ def invcdf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*inv_powm1(-p, -b)
 
 
@@ -108,6 +110,8 @@ def invsf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return loc + scale*mp.power(p, -1/b)
 
 
diff --git a/mpsci/distributions/power_normal.py b/mpsci/distributions/power_normal.py
index 69153e3..502bc05 100644
--- a/mpsci/distributions/power_normal.py
+++ b/mpsci/distributions/power_normal.py
@@ -10,6 +10,7 @@ The parameters used here match those used in SciPy.
 
 from mpmath import mp
 from mpsci.distributions import normal
+from ..fun import pow1pm1
 from ._common import _validate_p
 
 
@@ -69,6 +70,9 @@ def invcdf(p, c, loc=0, scale=1):
     """
     c, loc, scale = _validate_params(c, loc, scale)
     p = _validate_p(p)
+    q = -pow1pm1(-p, mp.one/c)
+    if q < 0.5:
+        return loc + scale*normal.invcdf(q)
     return loc - scale*normal.invcdf(mp.power(mp.one - p, mp.one/c))
 
 
@@ -90,7 +94,10 @@ def invsf(p, c, loc=0, scale=1):
     """
     c, loc, scale = _validate_params(c, loc, scale)
     p = _validate_p(p)
-    return loc - scale*normal.invcdf(mp.power(p, mp.one/c))
+    q = mp.power(p, mp.one/c)
+    if q > 0.5:
+        return loc + scale*normal.invcdf(-mp.powm1(p, mp.one/c))
+    return loc - scale*normal.invcdf(q)
 
 
 def support(c, loc=0, scale=1):
diff --git a/mpsci/distributions/truncnorm.py b/mpsci/distributions/truncnorm.py
index e803ba5..b30ae51 100644
--- a/mpsci/distributions/truncnorm.py
+++ b/mpsci/distributions/truncnorm.py
@@ -108,8 +108,20 @@ def invcdf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_params(a, b)
-    p2 = p * _norm_delta_cdf(a, b) + mp.ncdf(a)
-    return normal.invcdf(p2)
+    if p == 0:
+        return a
+    if p == 1:
+        return b
+    # p2 is the probability in the smaller tail of the normal distribution.
+    delta = _norm_delta_cdf(a, b)
+    p2 = p*delta + mp.ncdf(a)
+    if p2 <= 0.5:
+        x = normal.invcdf(p2)
+    else:
+        with mp.extradps(mp.dps):
+            q = mp.one - p
+        x = normal.invsf(q*delta + mp.ncdf(-b))
+    return min(max(x, a), b)
 
 
 @mp.extradps(5)
@@ -119,8 +131,7 @@ def invsf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_params(a, b)
-    p2 = -p * _norm_delta_cdf(a, b) + mp.ncdf(b)
-    return normal.invcdf(p2)
+    return -invcdf(p, -b, -a)
 
 
 @mp.extradps(5)
-- 
2.43.0


From b1ff46e26611fea04dae295c842f5bc8c0886b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 19/69] fix: f.cdf/f.sf, benktander1 and rel_breitwigner
 quantiles lost accuracy or had no root for tiny arguments

Property: C01,C04
---
 mpsci/distributions/benktander1.py     | 28 +++++++++++++++-----------
 mpsci/distributions/f.py               |  6 ++++++
 mpsci/distributions/rel_breitwigner.py | 19 +++++++++++------
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 5025c3a..c97f22e 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -102,12 +102,14 @@ def invcdf(p, a, b):
     if p == 1:
         return mp.inf
     w = mp.log1p(-p)
-    zlow = (-(a + mp.one) + mp.sqrt((a + mp.one)**2 - 4*b*w)) / (2*b)
-    q = a + mp.one - 2*b/a
-    zhigh = (-q + mp.sqrt(q**2 - 4*b*w)) / (2*b)
-    z = mp.findroot(lambda z: (mp.log(1 + 2*b/a*z)
-                               - (a + 1 + b*z)*z - w),
-                    (zlow, zhigh), method='anderson')
+    # Extra precision, because the terms cancel when z is small.
+    with mp.extraprec(max(0, -mp.mag(w))):
+        zlow = (-(a + mp.one) + mp.sqrt((a + mp.one)**2 - 4*b*w)) / (2*b)
+        q = a + mp.one - 2*b/a
+        zhigh = (-q + mp.sqrt(q**2 - 4*b*w)) / (2*b)
+        z = mp.findroot(lambda z: (mp.log1p(2*b/a*z)
+                                   - (a + 1 + b*z)*z)/w - 1,
+                        (zlow, zhigh), method='anderson')
     return mp.exp(z)
 
 
@@ -125,12 +127,14 @@ def invsf(p, a, b):
     if p == 1:
         return mp.one
     w = mp.log(p)
-    zlow = (-(a + mp.one) + mp.sqrt((a + mp.one)**2 - 4*b*w)) / (2*b)
-    q = a + mp.one - 2*b/a
-    zhigh = (-q + mp.sqrt(q**2 - 4*b*w)) / (2*b)
-    z = mp.findroot(lambda z: (mp.log(1 + 2*b/a*z)
-                               - (a + 1 + b*z)*z - w),
-                    (zlow, zhigh), method='anderson')
+    # Extra precision, because the terms cancel when z is small.
+    with mp.extraprec(max(0, -mp.mag(w))):
+        zlow = (-(a + mp.one) + mp.sqrt((a + mp.one)**2 - 4*b*w)) / (2*b)
+        q = a + mp.one - 2*b/a
+        zhigh = (-q + mp.sqrt(q**2 - 4*b*w)) / (2*b)
+        z = mp.findroot(lambda z: (mp.log1p(2*b/a*z)
+                                   - (a + 1 + b*z)*z)/w - 1,
+                        (zlow, zhigh), method='anderson')
     return mp.exp(z)
 
 
diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index 4b6acdb..fbea2c4 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -77,6 +77,9 @@ def cdf(x, dfn, dfd):
     if x == mp.inf:
         return mp.one
     dfnx = dfn * x
+    if dfnx > dfd:
+        return mp.betainc(dfd/2, dfn/2, x1=dfd/(dfnx + dfd), x2=1,
+                          regularized=True)
     return mp.betainc(dfn/2, dfd/2, x2=dfnx/(dfnx + dfd),
                       regularized=True)
 
@@ -112,6 +115,9 @@ def sf(x, dfn, dfd):
     if x == mp.inf:
         return mp.zero
     dfnx = dfn * x
+    if dfnx < dfd:
+        return mp.betainc(dfn/2, dfd/2, x1=dfnx/(dfnx + dfd), x2=1,
+                          regularized=True)
     return mp.betainc(dfd/2, dfn/2, x2=dfd/(dfnx + dfd),
                       regularized=True)
 
diff --git a/mpsci/distributions/rel_breitwigner.py b/mpsci/distributions/rel_breitwigner.py
index b536e3c..c4e9e0d 100644
--- a/mpsci/distributions/rel_breitwigner.py
+++ b/mpsci/distributions/rel_breitwigner.py
@@ -28,7 +28,7 @@ See https://github.com/scipy/scipy/issues/6414 for the details.
 
 from mpmath import mp
 from ..fun import pow1pm1
-from ._common import _validate_p, _validate_moment_n,  _find_bracket
+from ._common import _validate_p, _validate_moment_n,  _inv_prob
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -109,9 +109,12 @@ def invcdf(p, rho, scale):
     """
     p = _validate_p(p)
     rho, scale = _validate_rho_scale(rho, scale)
-    x0, x1 = _find_bracket(lambda x: cdf(x, rho, scale), p, 0, mp.inf)
-    root = mp.findroot(lambda t: cdf(t, rho, scale) - p, x0=(x0, x1))
-    return root
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.inf
+    return _inv_prob(lambda x: cdf(x, rho, scale), p, 0, mp.inf,
+                     increasing=True)
 
 
 def sf(x, rho, scale):
@@ -133,8 +136,12 @@ def invsf(p, rho, scale):
     """
     p = _validate_p(p)
     rho, scale = _validate_rho_scale(rho, scale)
-    x0, x1 = _find_bracket(lambda x: sf(x, rho, scale), p, 0, mp.inf)
-    return mp.findroot(lambda t: sf(t, rho, scale) - p, x0=(x0, x1))
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.zero
+    return _inv_prob(lambda x: sf(x, rho, scale), p, 0, mp.inf,
+                     increasing=False)
 
 
 def support(rho, scale):
-- 
2.43.0


From f0815ff10368cabfd07fbef5ee2ec1eb9b127007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:15 +0000
Subject: [PATCH 20/69] fix: cosine.pdf and logpdf cancelled near the ends of
 the support

Property: C02,C03
---
 mpsci/distributions/cosine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/cosine.py b/mpsci/distributions/cosine.py
index 7bf50c9..176fe71 100644
--- a/mpsci/distributions/cosine.py
+++ b/mpsci/distributions/cosine.py
@@ -30,7 +30,8 @@ def pdf(x):
         x = mp.mpf(x)
         if x <= -mp.pi or x >= mp.pi:
             return mp.zero
-        return (mp.cos(x) + 1)/(2*mp.pi)
+        # 1 + cos(x) = 2*cos(x/2)**2, which does not cancel near +/-pi.
+        return mp.cos(x/2)**2/mp.pi
 
 
 _pdf_docstring_replace = r"""
@@ -57,9 +58,10 @@ def logpdf(x):
     on the interval (-pi, pi) and zero elsewhere.
     """
     with mp.extradps((mp.dps + 1)//2):
+        x = mp.mpf(x)
         if x <= -mp.pi or x >= mp.pi:
             return -mp.inf
-        return mp.log1p(mp.cos(x)) - mp.log(2*mp.pi)
+        return 2*mp.log(mp.cos(x/2)) - mp.log(mp.pi)
 
 
 logpdf._docstring_re_subs = [
-- 
2.43.0


From 512d5cf2950dabd9f50b940105482c3f8b3692f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 21/69] fix: moments: nct for nc <= 0 or small df,
 studentt.mean for df <= 1, tukeylambda for lam = 0, genextreme for xi = 0,
 pareto.var signature

Property: C05
---
 mpsci/distributions/genextreme.py  | 10 ++++++++++
 mpsci/distributions/nct.py         | 13 ++++++++-----
 mpsci/distributions/pareto.py      |  2 +-
 mpsci/distributions/studentt.py    |  5 ++++-
 mpsci/distributions/tukeylambda.py |  7 +++++--
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index c205217..c8ac31c 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -291,6 +291,16 @@ def entropy(xi, mu=0, sigma=1):
 def _standard_noncentral_moment(n, xi):
     if n == 0:
         return mp.one
+    if xi == 0:
+        # This is the Gumbel distribution; use the recursion that relates
+        # the moments to the cumulants.
+        c = [mp.zero, mp.euler] + [mp.factorial(k - 1)*mp.zeta(k)
+                                   for k in range(2, n + 1)]
+        m = [mp.one]
+        for i in range(1, n + 1):
+            m.append(mp.fsum([mp.binomial(i - 1, k - 1)*c[k]*m[i - k]
+                              for k in range(1, i + 1)]))
+        return m[n]
     if xi < mp.one/n:
         v = [mp.binomial(n, k) * (-1)**k * mp.gamma(1 - xi*k)
              for k in range(n+1)]
diff --git a/mpsci/distributions/nct.py b/mpsci/distributions/nct.py
index 2e62cbe..c607911 100644
--- a/mpsci/distributions/nct.py
+++ b/mpsci/distributions/nct.py
@@ -103,14 +103,15 @@ def mean(df, nc):
     """
     Mean of the noncentral t distribution.
     """
-    # XXX Require df > 1.
     df = mp.mpf(df)
     nc = mp.mpf(nc)
-    logm = (mp.log(nc)
-            + mp.log(df/2)/2
+    if df <= 1:
+        # The mean does not exist.
+        return mp.nan
+    logc = (mp.log(df/2)/2
             + mp.loggamma((df - 1)/2)
             - mp.loggamma(df/2))
-    return mp.exp(logm)
+    return nc*mp.exp(logc)
 
 
 @mp.extradps(5)
@@ -118,9 +119,11 @@ def var(df, nc):
     """
     Variance of the noncentral t distribution.
     """
-    # XXX Require df > 2.
     df = mp.mpf(df)
     nc = mp.mpf(nc)
+    if df <= 2:
+        # The variance is not finite.
+        return mp.inf if df > 1 else mp.nan
     c = mp.exp(mp.loggamma((df - 1)/2) - mp.loggamma(df/2))
     return df/(df - 2) * (1 + nc**2) - df/2 * nc**2 * c**2
 
diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index eed9657..23276e8 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -138,7 +138,7 @@ def mean(b, loc=0, scale=1):
 
 
 @mp.extradps(5)
-def var(b, *, loc=0, scale=1):
+def var(b, loc=0, scale=1):
     """
     Variance of the Pareto distribution (type I).
 
diff --git a/mpsci/distributions/studentt.py b/mpsci/distributions/studentt.py
index 3f20dbb..8e79a83 100644
--- a/mpsci/distributions/studentt.py
+++ b/mpsci/distributions/studentt.py
@@ -149,9 +149,12 @@ def mean(df):
     """
     Mean of Student's t distribution.
 
-    The mean is 0.
+    The mean is 0 if df > 1.  Otherwise the mean does not exist, and nan
+    is returned.
     """
     df = _validate_df(df)
+    if df <= 1:
+        return mp.nan
     return mp.zero
 
 
diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index 686d5cc..3d9da78 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -199,11 +199,14 @@ def _standard_noncentral_moment(n, lam):
     """
     if n == 0:
         return mp.one
+    if lam * n <= -1:
+        return mp.nan
     if n % 2 == 1:
         # Moments of odd order are zero.
         return mp.zero
-    if lam * n <= -1:
-        return mp.nan
+    if lam == 0:
+        # This is the logistic distribution.
+        return (2**n - 2) * mp.pi**n * abs(mp.bernoulli(n))
     terms = [(-1)**k * mp.binomial(n, k) * mp.beta(lam * k + 1, (n - k) * lam + 1)
              for k in range(0, n + 1)]
     m = mp.fsum(terms) / lam**n
-- 
2.43.0


From bd4e3118d6f20740f59a6acce3d59d1a3fdb7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 22/69] fix: levy.support signature, nakagami.mode for nu <
 1/2, truncnorm.median in the tails

Property: C06
---
 mpsci/distributions/levy.py      | 3 +--
 mpsci/distributions/nakagami.py  | 3 +++
 mpsci/distributions/truncnorm.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index fd06f21..faa2c75 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -96,10 +96,9 @@ def invsf(p, mu=0, sigma=1):
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
-def support(p, mu=0, sigma=1):
+def support(mu=0, sigma=1):
     """
     Support of the Lévy distribution.
     """
-    p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
     return (mu, mp.inf)
diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 7c96f33..4e85303 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -152,6 +152,9 @@ def mode(nu, loc=0, scale=1):
     Mode of the Nakagami distribution.
     """
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if 2*nu <= 1:
+        # The PDF is decreasing.
+        return loc
     return loc + scale * mp.sqrt(1 - 1/(2 * nu))
 
 
diff --git a/mpsci/distributions/truncnorm.py b/mpsci/distributions/truncnorm.py
index b30ae51..9ae58a0 100644
--- a/mpsci/distributions/truncnorm.py
+++ b/mpsci/distributions/truncnorm.py
@@ -158,7 +158,7 @@ def median(a, b):
     Median of the truncated standard normal distribution.
     """
     a, b = _validate_params(a, b)
-    return normal.invcdf((normal.cdf(a) + normal.cdf(b))/2)
+    return invcdf(0.5, a, b)
 
 
 def mode(a, b):
-- 
2.43.0


From 5328306b54bdf417969625e6474e157fa6b703ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 23/69] fix: interval_prob of beta, gamma and loggamma outside
 the support and in the upper tail

Property: C08
---
 mpsci/distributions/_common.py  | 18 ++++++++++++++++++
 mpsci/distributions/beta.py     | 13 +++++++++++--
 mpsci/distributions/gamma.py    | 13 +++++++++++--
 mpsci/distributions/loggamma.py | 12 ++++++++----
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index a1fab29..bd65726 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -398,3 +398,21 @@ def _inv_prob(func, p, a, b, increasing):
         if g1 == 0:
             return x_of(t1)
         return x_of(t0 if abs(g0) < abs(g1) else t1)
+
+
+def _delta_prob(func, x1, x2):
+    """
+    Compute abs(func(x2) - func(x1)), where func is a CDF or a survival
+    function that is strictly monotone on [x1, x2], and x1 != x2.
+
+    The precision is increased as needed to counter the cancellation.
+    """
+    extra = 20
+    while True:
+        with mp.extraprec(extra):
+            p1 = func(x1)
+            p2 = func(x2)
+            delta = abs(p2 - p1)
+        if delta != 0 and max(mp.mag(p1), mp.mag(p2)) - mp.mag(delta) < extra:
+            return delta
+        extra *= 2
diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index 4d925a1..3d8c44d 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -7,7 +7,7 @@ This is the "standard" beta distribution, with shape parameters
 """
 
 from mpmath import mp
-from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
+from ._common import (_delta_prob, _validate_p, _validate_moment_n, _validate_x_bounds,
                       _inv_prob, isfixed)
 from .. import fun as _fun
 from ..stats import mean as _mean, var as _var
@@ -101,7 +101,16 @@ def interval_prob(x1, x2, a, b):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
-    return mp.betainc(a, b, x1, x2, regularized=True)
+    # Clip the interval to the support.
+    x1 = min(max(x1, mp.zero), mp.one)
+    x2 = min(max(x2, mp.zero), mp.one)
+    if x1 == x2:
+        return mp.zero
+    if x1 < a/(a + b):
+        return _delta_prob(lambda x: mp.betainc(a, b, 0, x, regularized=True),
+                           x1, x2)
+    return _delta_prob(lambda x: mp.betainc(b, a, 0, 1 - x, regularized=True),
+                       x1, x2)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index ffc2c8f..c858fec 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -11,7 +11,7 @@ Another common parameterization is shape `k` and the "rate" `lambda`.
 """
 
 from mpmath import mp
-from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
+from ._common import (_delta_prob, _validate_p, _validate_moment_n, _validate_x_bounds,
                       _inv_prob)
 from ..fun import digammainv, xlogy
 from .. import stats
@@ -144,7 +144,16 @@ def interval_prob(x1, x2, k, scale):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
-    return mp.gammainc(k, x1/scale, x2/scale, regularized=True)
+    # Clip the interval to the support.
+    x1 = max(x1, mp.zero)
+    x2 = max(x2, mp.zero)
+    if x1 == x2:
+        return mp.zero
+    if x1 < k*scale:
+        return _delta_prob(lambda x: mp.gammainc(k, 0, x/scale,
+                                                 regularized=True), x1, x2)
+    return _delta_prob(lambda x: mp.gammainc(k, x/scale, mp.inf,
+                                             regularized=True), x1, x2)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index bbe4bc2..3d1ebdd 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -18,7 +18,7 @@ from mpmath import mp
 from ..fun import digammainv as _digammainv
 from ..stats import mean as _mean
 from . import gamma
-from ._common import (_validate_p, _validate_x_bounds, Initial,
+from ._common import (_delta_prob, _validate_p, _validate_x_bounds, Initial,
                       isfixed)
 
 
@@ -149,9 +149,13 @@ def interval_prob(x1, x2, k, theta):
     x1 = mp.mpf(x1)
     x2 = mp.mpf(x2)
     k, theta = _validate_k_theta(k, theta)
-    z1 = x1/theta
-    z2 = x2/theta
-    return mp.gammainc(k, mp.exp(z1), mp.exp(z2), regularized=True)
+    if x1 == x2:
+        return mp.zero
+    if x1 < theta*mp.log(k):
+        return _delta_prob(lambda x: mp.gammainc(k, 0, mp.exp(x/theta),
+                                                 regularized=True), x1, x2)
+    return _delta_prob(lambda x: mp.gammainc(k, mp.exp(x/theta), mp.inf,
+                                             regularized=True), x1, x2)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 40b67c41da7fd9c1dc47d5e51bdac689f28b60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 24/69] fix: folded_normal.mode failed or lost accuracy for
 abs(mu) slightly larger than sigma

Property: C06
---
 mpsci/distributions/folded_normal.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mpsci/distributions/folded_normal.py b/mpsci/distributions/folded_normal.py
index 99e4f35..4bb8867 100644
--- a/mpsci/distributions/folded_normal.py
+++ b/mpsci/distributions/folded_normal.py
@@ -108,7 +108,7 @@ def mean(mu, sigma):
 
 
 def _mode_eq(t, r):
-    return t - r * mp.tanh(r*t)
+    return 1 - r * mp.tanh(r*t) / t
 
 
 def _mode_getstart(r):
@@ -129,13 +129,14 @@ def mode(mu, sigma):
     sigma = _validate_sigma(sigma)
     if mu <= sigma:
         return mp.zero
-    r = mu/sigma
-    # TODO: It should be possible to derive a better calculation of t0.
-    if r < 1.25:
+    with mp.workprec(2*mp.prec):
+        r = mu/sigma
+        if _mode_eq(r, r) == 0:
+            # tanh(r**2) is 1 to well beyond the working precision.
+            return mu
         t0 = _mode_getstart(r)
-    else:
-        t0 = r
-    t = mp.findroot(lambda s: s - r*mp.tanh(r*s), t0)
+        t = mp.findroot(lambda s: _mode_eq(s, r), (t0, 2*t0),
+                        solver='anderson')
     return sigma * t
 
 
-- 
2.43.0


From ace337edfd5b3d44a1f012c5342259bf29c396dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 25/69] fix: discrete distributions outside the support, for
 degenerate parameters and in the tails (binomial, hypergeometric,
 negative_binomial, negative_hypergeometric)

Property: C09
---
 mpsci/distributions/binomial.py               | 28 ++++++++++++-------
 mpsci/distributions/hypergeometric.py         |  9 ++++++
 mpsci/distributions/negative_binomial.py      |  8 ++++--
 .../distributions/negative_hypergeometric.py  |  3 ++
 4 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index 44f22e2..cd5063f 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -8,7 +8,7 @@ from mpmath import mp
 from ..stats import mean as _mean, var as _var
 from ._common import (_validate_p, _validate_x_bounds, _validate_counts,
                       isfixed)
-from ..fun import logbinomial
+from ..fun import logbinomial, xlogy, xlog1py
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf', 'mean', 'mode', 'var',
@@ -63,6 +63,8 @@ def pmf(k, n, p):
     Probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.zero
     return (mp.binomial(n, k) *
             mp.power(p, k) *
             mp.power(1 - p, n - k))
@@ -74,9 +76,11 @@ def logpmf(k, n, p):
     Natural log of the probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.ninf
     return (logbinomial(n, k)
-            + k*mp.log(p)
-            + mp.fsum([n, -k])*mp.log1p(-p))
+            + xlogy(k, p)
+            + xlog1py(mp.fsum([n, -k]), -p))
 
 
 @mp.extradps(5)
@@ -92,16 +96,17 @@ def cdf(k, n, p, method='incbeta'):
     """
     if method not in ['sumpmf', 'incbeta']:
         raise ValueError('method must be "sumpmf" or "incbeta"')
+    n, p = _validate_np(n, p)
+    if k < 0:
+        return mp.zero
+    if k >= n:
+        return mp.one
     if method == 'incbeta':
-        n, p = _validate_np(n, p)
-        if k == n:
-            return mp.one
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
         return mp.betainc(n - k, k + 1, x1=0, x2=1 - p,
                           regularized=True)
     # method is "sumpmf"
-    n, p = _validate_np(n, p)
     c = mp.fsum([mp.exp(logpmf(t, n, p))
                  for t in range(k + 1)])
     return c
@@ -120,14 +125,17 @@ def sf(k, n, p, method='incbeta'):
     """
     if method not in ['sumpmf', 'incbeta']:
         raise ValueError('method must be "sumpmf" or "incbeta"')
+    n, p = _validate_np(n, p)
+    if k < 0:
+        return mp.one
+    if k >= n:
+        return mp.zero
     if method == 'incbeta':
-        n, p = _validate_np(n, p)
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
-        return mp.betainc(n - k, k + 1, x1=1-p, x2=1,
+        return mp.betainc(k + 1, n - k, x1=0, x2=p,
                           regularized=True)
     # method is "sumpmf"
-    n, p = _validate_np(n, p)
     c = mp.fsum([mp.exp(logpmf(t, n, p))
                  for t in range(k + 1, n + 1)])
     return c
diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 64db787..9dd492f 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -29,6 +29,8 @@ def pmf(k, ntotal, ngood, nsample):
     Probability mass function of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if k not in support(ntotal, ngood, nsample):
+        return mp.zero
     nbad = ntotal - ngood
     numer = (ntotal + 1) * mp.beta(ntotal - nsample + 1, nsample + 1)
     denom = ((ngood + 1) * (nbad + 1) * mp.beta(k + 1, ngood - k + 1) *
@@ -46,6 +48,8 @@ def logpmf(k, ntotal, ngood, nsample):
     of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if k not in support(ntotal, ngood, nsample):
+        return mp.ninf
     nbad = ntotal - ngood
     # numerator terms
     terms = [mp.log(ntotal + 1),
@@ -73,6 +77,11 @@ def sf(k, ntotal, ngood, nsample):
     Survival function of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    sup = support(ntotal, ngood, nsample)
+    if k < sup[0]:
+        return mp.one
+    if k >= sup[-1]:
+        return mp.zero
     h = mp.hyp3f2(1, k + 1 - ngood, k + 1 - nsample, k + 2,
                   ntotal + k + 2 - ngood - nsample, 1)
     num = (mp.binomial(nsample, k + 1) *
diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index ccdfc68..7a1c48c 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -11,7 +11,7 @@ a "success".
 
 import itertools
 from mpmath import mp
-from ..fun import logbinomial, xlogy, xlog1py
+from ..fun import xlogy, xlog1py
 from ..stats import mean as _mean
 from ._common import Initial, _validate_counts, _validate_int
 
@@ -80,7 +80,9 @@ def logpmf(k, r, p):
     k = _validate_int(k)
     if k < 0:
         return mp.ninf
-    return logbinomial(k + r - 1, k) + xlog1py(r, -p) + xlogy(k, p)
+    # log of binomial(k + r - 1, k); r might be less than 1.
+    logc = mp.loggamma(k + r) - mp.loggamma(r) - mp.loggamma(k + 1)
+    return logc + xlog1py(r, -p) + xlogy(k, p)
 
 
 @mp.extradps(5)
@@ -133,7 +135,7 @@ def cdf(k, r, p):
     k = _validate_int(k)
     if k < 0:
         return mp.zero
-    return mp.betainc(k + 1, r, p, 1, regularized=True)
+    return mp.betainc(r, k + 1, 0, 1 - p, regularized=True)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index 6e6d433..b39cf3f 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -51,6 +51,9 @@ def logpmf(k, ntotal, ngood, untilnbad):
 
     if k < 0 or k > ngood:
         return mp.ninf
+    if untilnbad == 0:
+        # All the probability is at k = 0.
+        return mp.zero if k == 0 else mp.ninf
 
     t1 = logbinomial(k + untilnbad - 1, k)
     t2 = logbinomial(ntotal - untilnbad - k, ngood - k)
-- 
2.43.0


From 50a8bbe15cdd38afb8eef7318cf2b2ad6556aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 26/69] fix: hypergeometric mean/var for tiny populations,
 negative_binomial.mode for small p, negative_hypergeometric.mode for one bad
 item

Property: C10
---
 mpsci/distributions/hypergeometric.py          | 4 ++++
 mpsci/distributions/negative_binomial.py       | 2 +-
 mpsci/distributions/negative_hypergeometric.py | 4 ++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 9dd492f..36f2f65 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -153,6 +153,8 @@ def mean(ntotal, ngood, nsample):
     Mean of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if ntotal == 0:
+        return mp.zero
     return nsample * mp.mpf(ngood) / ntotal
 
 
@@ -175,6 +177,8 @@ def var(ntotal, ngood, nsample):
     Variance of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if ntotal <= 1:
+        return mp.zero
     ntotal = mp.mpf(ntotal)
     ngood = mp.mpf(ngood)
     nsample = mp.mpf(nsample)
diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index 7a1c48c..811630c 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -162,7 +162,7 @@ def mode(r, p):
     r, p = _validate_params(r, p)
     if r <= 1:
         return 0
-    return int(mp.ceil((r - 1) * p / (1 - p))) - 1
+    return max(int(mp.ceil((r - 1) * p / (1 - p))) - 1, 0)
 
 
 @mp.extradps(5)
diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index b39cf3f..37665ef 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -111,8 +111,8 @@ def mode(ntotal, ngood, untilnbad):
     ngood = mp.mpf(ngood)
     untilnbad = mp.mpf(untilnbad)
 
-    if ntotal > untilnbad * (ngood + 1):
-        # The PMF is decreasing.
+    if ntotal >= untilnbad * (ngood + 1):
+        # The PMF is nonincreasing.
         return 0
     t = ngood + untilnbad - 1
     if t > (ntotal - t) * ngood:
-- 
2.43.0


From 2f740b50f9028d570fbde3471279350ab833c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:43 +0000
Subject: [PATCH 27/69] fix: gompertz.var lost accuracy for large c

Property: C05
---
 mpsci/distributions/gompertz.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/gompertz.py b/mpsci/distributions/gompertz.py
index 70e318e..9e05319 100644
--- a/mpsci/distributions/gompertz.py
+++ b/mpsci/distributions/gompertz.py
@@ -177,11 +177,14 @@ def var(c, scale):
     article https://en.wikipedia.org/wiki/Gompertz_distribution.
     """
     c, scale = _validate_c_scale(c, scale)
-    lnc = mp.log(c)
-    expc = mp.exp(c)
-    return scale**2 * expc * (-2*c*mp.hyper([1, 1, 1], [2, 2, 2],-c) + mp.euler**2
-                              + mp.pi**2/6 + 2*mp.euler*lnc + lnc**2
-                              - expc*mp.e1(c)**2)
+    # The sum in the parentheses is O(exp(-c)/c**2), so for large c there is
+    # significant cancellation.
+    with mp.extraprec(int(1.5*c) + 10):
+        lnc = mp.log(c)
+        expc = mp.exp(c)
+        return scale**2 * expc * (-2*c*mp.hyper([1, 1, 1], [2, 2, 2], -c) + mp.euler**2
+                                  + mp.pi**2/6 + 2*mp.euler*lnc + lnc**2
+                                  - expc*mp.e1(c)**2)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 1f7f641ab197b1a2f49442cc4f7eb4270a4d8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 28/69] fix: pareto.mle: keep loc when loc and scale are both
 fixed

Property: C12
---
 mpsci/distributions/pareto.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index 23276e8..b16a5eb 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -219,6 +219,14 @@ def mle(x, *, b=None, loc=None, scale=None):
             loc_hat = x1 - scale_hat
             return b_hat, loc_hat, scale_hat
 
+        if loc_fixed and scale_fixed:
+            # b is free, loc and scale are fixed.
+            _, loc, scale = _validate_params(1, loc, scale)
+            x = _validate_x_bounds(x, low=loc + scale, high=mp.inf)
+            s1 = mp.fsum([mp.log(t - loc) for t in x])
+            b_hat = 1/(s1/n - mp.log(scale))
+            return b_hat, loc, scale
+
         if not scale_fixed:
             # b and scale are free, loc is fixed.
             loc = mp.mpf(loc)
-- 
2.43.0


From b75f4d1e1f5bddfb2c42fbd987c9cc149d9e117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 29/69] fix: gumbel_max/gumbel_min: avoid overflow in mle when
 |x| is large relative to the scale

Property: C12
---
 mpsci/distributions/gumbel_max.py | 5 ++++-
 mpsci/distributions/gumbel_min.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/gumbel_max.py b/mpsci/distributions/gumbel_max.py
index 57288a4..ed1cace 100644
--- a/mpsci/distributions/gumbel_max.py
+++ b/mpsci/distributions/gumbel_max.py
@@ -146,7 +146,10 @@ def nll(x, loc, scale):
 
 
 def _mle_scale_func(scale, x, xbar):
-    emx = [mp.exp(-xi/scale) for xi in x]
+    # The common factor exp(xmin/scale) does not change the root; it avoids
+    # overflow and underflow when the values in x are large relative to scale.
+    xmin = min(x)
+    emx = [mp.exp((xmin - xi)/scale) for xi in x]
     s1 = mp.fsum([xi * emxi for xi, emxi in zip(x, emx)])
     s2 = mp.fsum(emx)
     return s2*(xbar - scale) - s1
diff --git a/mpsci/distributions/gumbel_min.py b/mpsci/distributions/gumbel_min.py
index 6df97bf..dae0af6 100644
--- a/mpsci/distributions/gumbel_min.py
+++ b/mpsci/distributions/gumbel_min.py
@@ -137,7 +137,10 @@ def nll(x, loc, scale):
 
 
 def _mle_scale_func(scale, x, xbar):
-    emx = [mp.exp(xi/scale) for xi in x]
+    # The common factor exp(-xmax/scale) does not change the root; it avoids
+    # overflow and underflow when the values in x are large relative to scale.
+    xmax = max(x)
+    emx = [mp.exp((xi - xmax)/scale) for xi in x]
     s1 = mp.fsum([xi * emxi for xi, emxi in zip(x, emx)])
     s2 = mp.fsum(emx)
     return s2*(xbar + scale) - s1
-- 
2.43.0


From 74d0bccf36328b260c6cae5a95339be790e450ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:47 +0000
Subject: [PATCH 30/69] fix: weibull_min/weibull_max.mle: solve for log(k) so a
 negative k is not returned

Property: C12
---
 mpsci/distributions/weibull_max.py | 3 ++-
 mpsci/distributions/weibull_min.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/weibull_max.py b/mpsci/distributions/weibull_max.py
index c0da867..e6ff4ea 100644
--- a/mpsci/distributions/weibull_max.py
+++ b/mpsci/distributions/weibull_max.py
@@ -299,7 +299,8 @@ def mle(x, *, k=None, loc=None, scale=None):
     if k is None and scale is None:
         # Solve for k and scale.
         # TO DO: Is there a better guess for k than 1?
-        k_hat = mp.findroot(lambda k: _mle_k_eqn1(k, x), 1.0)
+        # Solve for log(k), so the solver can't wander off to negative k.
+        k_hat = mp.exp(mp.findroot(lambda t: _mle_k_eqn1(mp.exp(t), x), 0))
         scale_hat = pmean(x, p=k_hat)
     elif k is not None and scale is None:
         # Solve for scale.
diff --git a/mpsci/distributions/weibull_min.py b/mpsci/distributions/weibull_min.py
index f3d786a..9c46c59 100644
--- a/mpsci/distributions/weibull_min.py
+++ b/mpsci/distributions/weibull_min.py
@@ -301,7 +301,8 @@ def mle(x, *, k=None, loc=None, scale=None):
     if k is None and scale is None:
         # Solve for k and scale.
         # TO DO: Is there a better guess for k than 1?
-        k_hat = mp.findroot(lambda k: _mle_k_eqn1(k, x), 1.0)
+        # Solve for log(k), so the solver can't wander off to negative k.
+        k_hat = mp.exp(mp.findroot(lambda t: _mle_k_eqn1(mp.exp(t), x), 0))
         scale_hat = pmean(x, p=k_hat)
     elif k is not None and scale is None:
         # Solve for scale.
-- 
2.43.0


From 2df3ab0211efb24c28a56755dc97a26ea5aab13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 31/69] fix: loggamma.mle: solve for log(theta) when k is fixed
 so a negative theta is not returned

Property: C12
---
 mpsci/distributions/loggamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 3d1ebdd..a205ea2 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -260,8 +260,8 @@ def _mle_scale(x, k, theta0=1):
         return -n*scale + mp.fsum([x1*(mp.exp(z1) - k)
                                    for x1, z1 in zip(x, z)])
 
-    scale = mp.findroot(scale_eq, theta0)
-    return scale
+    # Solve for log(scale), so the solver can't wander off to negative scale.
+    return mp.exp(mp.findroot(lambda t: scale_eq(mp.exp(t)), mp.log(theta0)))
 
 
 # MLE to do:
-- 
2.43.0


From 3d3b3e1e0c9bb76de5d3666d103f59d519f358e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 32/69] fix: binomial.mle: use counts in the threshold for p
 and ignore values with count 0

Property: C12
---
 mpsci/distributions/binomial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index cd5063f..4aab141 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -193,9 +193,10 @@ def nll(x, n, p, *, counts=None):
                      for t, count in zip(x, counts)])
 
 
-def _p_threshold(k):
+def _p_threshold(k, counts=None):
     kmax = max(k)
-    d = _mean([mp.digamma(kmax + 1) - mp.digamma(kmax - ki + 1) for ki in k])
+    d = _mean([mp.digamma(kmax + 1) - mp.digamma(kmax - ki + 1) for ki in k],
+              weights=counts)
     return -mp.expm1(-d)
 
 
@@ -231,8 +232,11 @@ def mle(x, *, counts=None, n=None, p=None):
         raise ValueError('all values in x must be integers')
     x = _validate_x_bounds(x, low=0, high=mp.inf,
                            strict_low=False)
-    xmax = max(x)
     counts = _validate_counts(x, counts, expand_none=False)
+    if counts is not None and any(counts):
+        # Values that did not occur must not affect the bound for n.
+        x, counts = zip(*[(xi, c) for xi, c in zip(x, counts) if c != 0])
+    xmax = max(x)
     n_fixed = isfixed(n)
     p_fixed = isfixed(p)
     if n_fixed:
@@ -292,7 +296,7 @@ def mle(x, *, counts=None, n=None, p=None):
     else:
         # n is free, p is fixed.
         _, p = _validate_np(1, p)
-        pt = _p_threshold(x)
+        pt = _p_threshold(x, counts)
         if p >= pt:
             nhat = xmax
             return int(xmax), p
-- 
2.43.0


From e704457d0c269606028f20fb7cefda64c209e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 33/69] fix: betaprime, burr12, pareto mle: raise RuntimeError
 instead of returning roots that are not valid parameters

Property: C12
---
 mpsci/distributions/_common.py   | 11 +++++++++++
 mpsci/distributions/betaprime.py | 16 ++++++++--------
 mpsci/distributions/burr12.py    | 15 ++++++++-------
 mpsci/distributions/pareto.py    |  5 +++--
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index bd65726..e64367d 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -19,6 +19,17 @@ def isfixed(param):
     return not (param is None or isinstance(param, Initial))
 
 
+def _validate_estimates(*params):
+    """
+    Check that parameters found by `mp.findroot` are real and positive.
+    """
+    for param in params:
+        if not (isinstance(param, mp.mpf) and param > 0):
+            raise RuntimeError('findroot found invalid parameters: '
+                               f'{param} is not a positive number')
+    return params if len(params) > 1 else params[0]
+
+
 def _validate_loc_scale(loc, scale, scale_name='scale'):
     loc = mp.mpf(loc)
     scale = mp.mpf(scale)
diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index c4bb889..7235ee9 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -29,7 +29,7 @@ the scale to 1.
 import re
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _inv_prob,
-                      _validate_x_bounds, Initial)
+                      _validate_x_bounds, _validate_estimates, Initial)
 from ..stats import mean as _mean
 from .. import fun as _fun
 
@@ -356,7 +356,7 @@ def mle(x, *, a=None, b=None, scale=None):
         ahat, bhat, scalehat = mp.findroot(eqns_a_b_scale,
                                            [a0, b0, scale0],
                                            solver='secant')
-        return ahat, bhat, scalehat
+        return _validate_estimates(ahat, bhat, scalehat)
 
     if scale_fixed:
         if not (a_fixed or b_fixed):
@@ -376,7 +376,7 @@ def mle(x, *, a=None, b=None, scale=None):
             a0 = 1 if a is None else a.initial
             b0 = 1 if b is None else b.initial
             ahat, bhat = mp.findroot(eqns_a_b, [a0, b0])
-            return ahat, bhat, scale
+            return _validate_estimates(ahat, bhat, scale)
         elif a_fixed and not b_fixed:
             a, _, scale = _validate_params(a, 1, scale)
             meanlog1px = _mean([mp.log1p(t/scale) for t in x])
@@ -386,7 +386,7 @@ def mle(x, *, a=None, b=None, scale=None):
 
             b0 = mp.mpf(1 if b is None else b.initial)
             bhat = mp.findroot(b_eqn, b0)
-            return a, bhat, scale
+            return _validate_estimates(a, bhat, scale)
         else:
             # scale and b are fixed, a is not fixed.
             _, b, scale = _validate_params(1, b, scale)
@@ -400,7 +400,7 @@ def mle(x, *, a=None, b=None, scale=None):
 
             a0 = mp.mpf(1 if a is None else a.initial)
             ahat = mp.findroot(a_eqn, a0)
-            return ahat, b, scale
+            return _validate_estimates(ahat, b, scale)
     else:
         # scale is not fixed, but one of a or b is fixed.
         if a_fixed and b_fixed:
@@ -411,7 +411,7 @@ def mle(x, *, a=None, b=None, scale=None):
                 return a - (a + b)*_mean([(xi/s)/(1 + xi/s) for xi in x])
 
             scalehat = mp.findroot(scale_eqn, scale0)
-            return a, b, scalehat
+            return _validate_estimates(a, b, scalehat)
         elif a_fixed and not b_fixed:
             a, _, _ = _validate_params(a, 1, 1)
             b0 = mp.mpf(1 if b is None else b.initial)
@@ -428,7 +428,7 @@ def mle(x, *, a=None, b=None, scale=None):
             meanxover1px = _mean([(t/scalehat)/(1 + t/scalehat)
                                   for t in x])
             bhat = a * (1/meanxover1px - 1)
-            return a, bhat, scalehat
+            return _validate_estimates(a, bhat, scalehat)
         else:
             # scale and a are not fixed, b is fixed.
             _, b, _ = _validate_params(1, b, 1)
@@ -449,4 +449,4 @@ def mle(x, *, a=None, b=None, scale=None):
             meanxover1px = _mean([(t/scalehat)/(1 + t/scalehat)
                                       for t in x])
             ahat = b * (meanxover1px/(1 - meanxover1px))
-            return ahat, b, scalehat
+            return _validate_estimates(ahat, b, scalehat)
diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 42c264f..efadb7a 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -8,6 +8,7 @@ from mpmath import mp
 from mpsci.stats import mean as _fmean
 from ..fun import pow1pm1
 from mpsci.distributions._common import (_validate_p,  _validate_x_bounds,
+                                         _validate_estimates,
                                          Initial, isfixed)
 
 
@@ -341,7 +342,7 @@ def mle(x, *, c=None, d=None, scale=None):
         scale0 = scale.initial if isinstance(scale, Initial) else 1
         c, d0, scale0 = _validate_params(c, d0, scale0)
         d, scale = _mle_d_scale(x, c, d0, scale0)
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     elif c_fixed and d_fixed and not scale_fixed:
         # Fit the scale; c and d are fixed.
@@ -350,7 +351,7 @@ def mle(x, *, c=None, d=None, scale=None):
         scale_low, scale_high = _find_scale_bracket_c_and_d_fixed(x, c, d)
         scale = mp.findroot(lambda s: _scale_eq_c_and_d_fixed(s, x, c, d),
                             (scale_low, scale_high), method='anderson')
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     elif c_fixed and not d_fixed and scale_fixed:
         d0 = d.initial if isinstance(d, Initial) else 1
@@ -358,7 +359,7 @@ def mle(x, *, c=None, d=None, scale=None):
         # formula in this case and there is no need for an iterative solver.
         c, d0, scale = _validate_params(c, d0, scale)
         d = 1/_fmean([mp.log1p((xi/scale)**c) for xi in x])
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     elif not c_fixed and d_fixed and scale_fixed:
         c0 = c.initial if isinstance(c, Initial) else 1
@@ -366,7 +367,7 @@ def mle(x, *, c=None, d=None, scale=None):
         c_low, c_high = _find_c_bracket_d_and_scale_fixed(x, d, scale)
         c = mp.findroot(lambda t: _c_eq_d_and_scale_fixed(t, x, d, scale),
                         (c_low, c_high), method='anderson')
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     elif not c_fixed and not d_fixed and scale_fixed:
         # Only the scale is fixed.
@@ -377,7 +378,7 @@ def mle(x, *, c=None, d=None, scale=None):
         c = mp.findroot(lambda t: _c_eq_scale_fixed(t, x, scale),
                         (c_low, c_high), method='anderson')
         d = 1/_fmean([mp.log1p((xi/scale)**c) for xi in x])
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     elif not c_fixed and d_fixed and not scale_fixed:
         # Only d is fixed.
@@ -386,7 +387,7 @@ def mle(x, *, c=None, d=None, scale=None):
         scale0 = scale.initial if isinstance(scale, Initial) else 1
         c0, d, scale0 = _validate_params(c0, d, scale0)
         c, scale = _mle_c_scale(x, d, c0, scale0)
-        return c, d, scale
+        return _validate_estimates(c, d, scale)
 
     # No parameters fixed: fit c, d and scale
     c0 = c.initial if isinstance(c, Initial) else 1
@@ -394,4 +395,4 @@ def mle(x, *, c=None, d=None, scale=None):
     scale0 = scale.initial if isinstance(scale, Initial) else 1
     c0, d0, scale0 = _validate_params(c0, d0, scale0)
     c, d, scale = _mle_c_d_scale(x, c0, d0, scale0)
-    return c, d, scale
+    return _validate_estimates(c, d, scale)
diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index b16a5eb..50565d4 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -14,7 +14,7 @@ wikipedia page.
 """
 from mpmath import mp
 from ..fun import inv_powm1
-from ._common import _validate_p, _validate_x_bounds, Initial
+from ._common import _validate_p, _validate_x_bounds, _validate_estimates, Initial
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -216,6 +216,7 @@ def mle(x, *, b=None, loc=None, scale=None):
             b0 = b.initial if isinstance(b, Initial) else 1
             scale0 = scale.initial if isinstance(scale, Initial) else 1
             b_hat, scale_hat = mp.findroot(mle_eqns, [b0, scale0])
+            _validate_estimates(b_hat, scale_hat)
             loc_hat = x1 - scale_hat
             return b_hat, loc_hat, scale_hat
 
@@ -258,7 +259,7 @@ def mle(x, *, b=None, loc=None, scale=None):
             return n*b/scale - (b + 1)*s
 
         scale0 = scale.initial if isinstance(scale, Initial) else 1
-        scale_hat = mp.findroot(mle_eqn, scale0)
+        scale_hat = _validate_estimates(mp.findroot(mle_eqn, scale0))
         loc_hat = x1 - scale_hat
         return b, loc_hat, scale_hat
 
-- 
2.43.0


From adddd1901053544e2f202d5cff696225470d408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 34/69] fix: gompertz.mle: solve for the logarithm so invalid
 (negative, complex) estimates are not returned

Property: C12
---
 mpsci/distributions/gompertz.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/gompertz.py b/mpsci/distributions/gompertz.py
index 9e05319..2c8939d 100644
--- a/mpsci/distributions/gompertz.py
+++ b/mpsci/distributions/gompertz.py
@@ -242,7 +242,11 @@ def mle(x, *, c=None, scale=None):
                 meanxexpx = _mean([xi*mp.exp(xi/scale) for xi in x])
                 return -scale - meanx + meanxexpx/(meanexpx - 1)
 
-            scalehat = mp.findroot(mle_scale_eqn, scale0)
+            # Solve for log(scale), so the solver can't wander off to
+            # negative values.
+            logscalehat = mp.findroot(lambda t: mle_scale_eqn(mp.exp(t)),
+                                      mp.log(scale0))
+            scalehat = mp.exp(logscalehat)
             meanexpx = _mean([mp.exp(xi/scalehat) for xi in x])
             chat = 1/(meanexpx - 1)
             return chat, scalehat
@@ -261,5 +265,9 @@ def mle(x, *, c=None, scale=None):
                 meanxexpx = _mean([xi*mp.exp(xi/scale) for xi in x])
                 return -scale - meanx + c*meanxexpx
 
-            scalehat = mp.findroot(mle_scale_eqn, scale0)
+            # Solve for log(scale), so the solver can't wander off to
+            # negative values.
+            logscalehat = mp.findroot(lambda t: mle_scale_eqn(mp.exp(t)),
+                                      mp.log(scale0))
+            scalehat = mp.exp(logscalehat)
             return c, scalehat
-- 
2.43.0


From e6ed4c160f6af64b831b5a51ebf74a1dc4e50cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 35/69] fix: kumaraswamy.mle: solve for the logarithm so
 invalid (negative, complex) estimates are not returned

Property: C12
---
 mpsci/distributions/kumaraswamy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index d7f0390..1398b1b 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -275,7 +275,10 @@ def mle(x, *, a=None, b=None):
             a0 = a.initial
         else:
             a0 = 1
-        a = mp.findroot(lambda t: _mle_a_eqn(t, x, sumlogx), a0)
+        # Solve for log(a), so the solver can't wander off to negative values.
+        loga = mp.findroot(lambda t: _mle_a_eqn(mp.exp(t), x, sumlogx),
+                           mp.log(a0))
+        a = mp.exp(loga)
         b = -n / mp.fsum([mp.log1p(-t**a) for t in x])
         return a, b
     if (a is not None and not isinstance(a, Initial)) and b is not None:
@@ -287,7 +290,12 @@ def mle(x, *, a=None, b=None):
             a0 = a.initial
         else:
             a0 = 1
-        a = mp.findroot(lambda t: _mle_a_eqn_b_fixed(t, b, x, sumlogx), a0)
+        # Solve for log(a), so the solver can't wander off to negative values.
+        loga = mp.findroot(
+            lambda t: _mle_a_eqn_b_fixed(mp.exp(t), b, x, sumlogx),
+            mp.log(a0)
+        )
+        a = mp.exp(loga)
         return a, b
     # a is fixed, b is not.
     a, _ = _validate_a_b(a, 1)
-- 
2.43.0


From 148eaa6f4b14906d4798b020b1e7e804ba7a5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 36/69] fix: hypsecant.mle: do not return a negative scale

Property: C12
---
 mpsci/distributions/hypsecant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/hypsecant.py b/mpsci/distributions/hypsecant.py
index 84a0f92..601e2f8 100644
--- a/mpsci/distributions/hypsecant.py
+++ b/mpsci/distributions/hypsecant.py
@@ -178,7 +178,8 @@ def mle(x, *, loc=None, scale=None):
             return eq1, eq2
 
         loc_hat, scale_hat = mp.findroot(mle_eqns, [loc0, scale0])
-        return loc_hat, scale_hat
+        # If (loc, scale) solves the equations, so does (loc, -scale).
+        return loc_hat, abs(scale_hat)
 
     if loc is None or isinstance(loc, Initial):
         # Fit loc only; scale is fixed.
@@ -206,7 +207,8 @@ def mle(x, *, loc=None, scale=None):
             return s - n
 
         scale_hat = mp.findroot(mle_scale_eqn, scale0)
-        return loc, scale_hat
+        # If scale solves the equation, so does -scale.
+        return loc, abs(scale_hat)
 
     # Both parameters fixed, nothing to do.
     loc, scale = _validate_loc_scale(loc, scale)
-- 
2.43.0


From fc759bb8e9083d6979df5846c3048a5f16994242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 37/69] fix: betabinomial, negative_binomial mle: raise
 RuntimeError instead of returning invalid parameters

Property: C12
---
 mpsci/distributions/betabinomial.py      | 8 +++++---
 mpsci/distributions/negative_binomial.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mpsci/distributions/betabinomial.py b/mpsci/distributions/betabinomial.py
index 52d33ee..0676736 100644
--- a/mpsci/distributions/betabinomial.py
+++ b/mpsci/distributions/betabinomial.py
@@ -8,7 +8,8 @@ See https://en.wikipedia.org/wiki/Beta-binomial_distribution
 
 from mpmath import mp
 from ..fun import logbinomial, logbeta
-from ._common import _validate_x_bounds, Initial, _validate_counts
+from ._common import (_validate_x_bounds, _validate_estimates, Initial,
+                      _validate_counts)
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf',
@@ -319,6 +320,7 @@ def mle(x, *, counts=None, n=None, a=None, b=None):
 
         est = mp.findroot(first_order_eqns,
                           x0=(mp.mpf(a.initial), mp.mpf(b.initial)))
+        _validate_estimates(est[0, 0], est[1, 0])
         return n, est[0, 0], est[1, 0]
 
     elif isinstance(a, Initial):
@@ -330,7 +332,7 @@ def mle(x, *, counts=None, n=None, a=None, b=None):
                             for t, count in zip(x, counts)])
 
         est = mp.findroot(first_order_eqn, x0=mp.mpf(a.initial))
-        return n, est, b
+        return n, _validate_estimates(est), b
 
     elif isinstance(b, Initial):
         # b is free, a is fixed
@@ -341,7 +343,7 @@ def mle(x, *, counts=None, n=None, a=None, b=None):
                             for t, count in zip(x, counts)])
 
         est = mp.findroot(first_order_eqn, x0=mp.mpf(b.initial))
-        return n, a, est
+        return n, a, _validate_estimates(est)
 
     else:
         # All parameters fixed, nothing to do.
diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index 811630c..6e96c51 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -13,7 +13,8 @@ import itertools
 from mpmath import mp
 from ..fun import xlogy, xlog1py
 from ..stats import mean as _mean
-from ._common import Initial, _validate_counts, _validate_int
+from ._common import (Initial, _validate_counts, _validate_estimates,
+                      _validate_int)
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'sf', 'cdf', 'mean', 'mode', 'var',
@@ -239,7 +240,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
                     - mp.digamma(r) + mp.log1p(-p1))
 
         r0 = 1 if r is None else r.initial
-        rhat = mp.findroot(mle_r_eqn, r0)
+        rhat = _validate_estimates(mp.findroot(mle_r_eqn, r0))
         phat = m/(rhat + m)
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, phat
@@ -264,7 +265,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
                     - mp.digamma(r) + mp.log1p(-p))
 
         r0 = 1 if r is None else r.initial
-        rhat = mp.findroot(mle_r_eqn, r0)
+        rhat = _validate_estimates(mp.findroot(mle_r_eqn, r0))
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, p
         # Integer r is required.
-- 
2.43.0


From d9ef1b6d4c127cf414ae0b47f72017a3b41b21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 38/69] fix: split the genhyperbolic cdf/sf quadrature around
 the bulk of the density

Property: C14
---
 mpsci/distributions/genhyperbolic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpsci/distributions/genhyperbolic.py b/mpsci/distributions/genhyperbolic.py
index 85c74b1..7d5954e 100644
--- a/mpsci/distributions/genhyperbolic.py
+++ b/mpsci/distributions/genhyperbolic.py
@@ -63,13 +63,13 @@ def pdf(x, p, a, b, loc=0, scale=1):
 
 
 def _integrate_pdf(x0, x1, p, a, b, loc, scale):
+    # Split the interval around the bulk of the distribution.  A single
+    # infinite interval that begins at the mean is not handled accurately
+    # by mp.quad when the PDF is steep on one side.
     m = mean(p, a, b, loc, scale)
-    if x0 < m < x1:
-        q1 = mp.quad(lambda t: pdf(t, p, a, b, loc, scale), [x0, m])
-        q2 = mp.quad(lambda t: pdf(t, p, a, b, loc, scale), [m, x1])
-        return q1 + q2
-    else:
-        return mp.quad(lambda t: pdf(t, p, a, b, loc, scale), [x0, x1])
+    s = mp.sqrt(var(p, a, b, loc, scale))
+    points = [t for t in [m - 3*s, m, m + 3*s] if x0 < t < x1]
+    return mp.quad(lambda t: pdf(t, p, a, b, loc, scale), [x0, *points, x1])
 
 
 @mp.extradps(5)
-- 
2.43.0


From 921039a7c25b31173016eb388b60015ab70a1c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 39/69] fix: normal.nll: default mu is 0, as in every other
 function of the module

Property: C14
---
 mpsci/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/normal.py b/mpsci/distributions/normal.py
index ad8cb2d..a97864c 100644
--- a/mpsci/distributions/normal.py
+++ b/mpsci/distributions/normal.py
@@ -138,7 +138,7 @@ def entropy(mu=0, sigma=1):
 
 
 @mp.extradps(5)
-def nll(x, mu=1, sigma=1):
+def nll(x, mu=0, sigma=1):
     """
     Negative log-likelihood for the normal distribution.
     """
-- 
2.43.0


From 47246dc394aaf8be5173c19dd566e1e5b6af9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 40/69] fix: validate the arguments of benktander2.mode,
 kumaraswamy.support, laplace and loggamma quantiles, logseries,
 negative_binomial.support, poisson.mle, trunc_discrete_exp.mode

Property: C15
---
 mpsci/distributions/benktander2.py        | 1 +
 mpsci/distributions/kumaraswamy.py        | 1 +
 mpsci/distributions/laplace.py            | 6 +++---
 mpsci/distributions/loggamma.py           | 4 ++--
 mpsci/distributions/logseries.py          | 5 ++++-
 mpsci/distributions/negative_binomial.py  | 1 +
 mpsci/distributions/poisson.py            | 1 +
 mpsci/distributions/trunc_discrete_exp.py | 1 +
 8 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index a828a5a..fde5f1f 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -151,6 +151,7 @@ def mode(a, b):
 
     The is 1 for all parameter values.
     """
+    a, b = _validate_ab(a, b)
     return mp.one
 
 
diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 1398b1b..99e9521 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -129,6 +129,7 @@ def support(a, b):
     """
     Support of the Kumaraswamy distribution.
     """
+    a, b = _validate_a_b(a, b)
     return (mp.zero, mp.one)
 
 
diff --git a/mpsci/distributions/laplace.py b/mpsci/distributions/laplace.py
index 824a9cb..9a4c6cd 100644
--- a/mpsci/distributions/laplace.py
+++ b/mpsci/distributions/laplace.py
@@ -12,7 +12,7 @@ wikipedia article:
 
 from mpmath import mp
 from mpsci.stats import mean as _mean
-from ._common import _seq_to_mp, _validate_loc_scale
+from ._common import _seq_to_mp, _validate_loc_scale, _validate_p
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'invcdf', 'invsf', 'interval_prob',
@@ -110,7 +110,7 @@ def invcdf(p, loc=0, scale=1):
     point function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p <= 0.5:
         q = loc + scale * mp.log(2*p)
     else:
@@ -124,7 +124,7 @@ def invsf(p, loc=0, scale=1):
     Laplace distribution inverse survival function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p >= 0.5:
         q = loc + scale * mp.log(2 - 2*p)
     else:
diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index a205ea2..69c94c3 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -87,11 +87,11 @@ def invcdf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.ninf
     if p == 1:
         return mp.inf
-    k, theta = _validate_k_theta(k, theta)
     return theta*mp.log(gamma.invcdf(p, k, 1))
 
 
@@ -118,11 +118,11 @@ def invsf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.inf
     if p == 1:
         return mp.ninf
-    k, theta = _validate_k_theta(k, theta)
     return theta*mp.log(gamma.invsf(p, k, 1))
 
 
diff --git a/mpsci/distributions/logseries.py b/mpsci/distributions/logseries.py
index fd4a1ae..2aa3204 100644
--- a/mpsci/distributions/logseries.py
+++ b/mpsci/distributions/logseries.py
@@ -12,7 +12,7 @@ distribution [1]_.
 import itertools
 from mpmath import mp
 from mpsci.stats import mean as _fmean
-from ._common import _validate_p, _validate_counts
+from ._common import _validate_p, _validate_x_bounds, _validate_counts
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf', 'mean', 'var', 'mode',
@@ -36,6 +36,7 @@ def support(p):
     2
 
     """
+    p = _validate_p(p)
     return itertools.count(start=1)
 
 
@@ -186,6 +187,8 @@ def mle(x, *, counts=None):
     mpf('0.9207611550739465028229025367922360801454828')
 
     """
+    x = _validate_x_bounds(x, low=1)
+    counts = _validate_counts(x, counts, expand_none=False)
     with mp.extradps(mp.dps):
         m = _fmean(x, weights=counts)
         if m == 1:
diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index 6e96c51..fe17da7 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -50,6 +50,7 @@ def support(r, p):
     1
 
     """
+    r, p = _validate_params(r, p)
     return itertools.count(start=0)
 
 
diff --git a/mpsci/distributions/poisson.py b/mpsci/distributions/poisson.py
index 8aef8ab..41d42d4 100644
--- a/mpsci/distributions/poisson.py
+++ b/mpsci/distributions/poisson.py
@@ -172,5 +172,6 @@ def mle(x, *, counts=None):
 
     Returns lambda, the estimated parameter of the Poisson distribution.
     """
+    x = _validate_x_bounds(x, low=0, high=None, strict_low=False)
     counts = _validate_counts(x, counts, expand_none=False)
     return _fmean(x, weights=counts)
diff --git a/mpsci/distributions/trunc_discrete_exp.py b/mpsci/distributions/trunc_discrete_exp.py
index 33be23d..84952d7 100644
--- a/mpsci/distributions/trunc_discrete_exp.py
+++ b/mpsci/distributions/trunc_discrete_exp.py
@@ -138,6 +138,7 @@ def mode(lam, n):
     The PMF of this distribution is decreasing (or constant if `lam` is 0),
     so the mode is always 0.
     """
+    lam, n = _validate_params(lam, n)
     return 0
 
 
-- 
2.43.0


From 19d076e6ffbb8fe2272d7c363496a651bd1edcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 41/69] fix: pearsonr: do not truncate the data to double
 precision

Property: C16,C24
---
 mpsci/stats/_pearsonr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 9f42e81..12dd230 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -53,8 +53,8 @@ def pearsonr(x, y, alternative='two-sided'):
     if len(x) == 2:
         return mp.sign(x[1] - x[0])*mp.sign(y[1] - y[0]), mp.one
 
-    x = [mp.mpf(float(t)) for t in x]
-    y = [mp.mpf(float(t)) for t in y]
+    x = [mp.mpmathify(t) for t in x]
+    y = [mp.mpmathify(t) for t in y]
 
     xmean = sum(x) / len(x)
     ymean = sum(y) / len(y)
-- 
2.43.0


From 3f31d48647ae224c9fdfd6c9c581c3d310d2f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 42/69] fix: pearsonr: keep r in [-1, 1]

Property: C24
---
 mpsci/stats/_pearsonr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 12dd230..c16f53b 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -64,7 +64,8 @@ def pearsonr(x, y, alternative='two-sided'):
 
     num = sum(s*t for s, t in zip(xm, ym))
     den = mp.sqrt(sum(t**2 for t in xm) * sum(t**2 for t in ym))
-    r = num / den
+    # Rounding errors can put the quotient slightly outside [-1, 1].
+    r = max(-mp.one, min(mp.one, num / den))
 
     n = len(x)
     a = mp.mpf(float(n))/2 - 1
-- 
2.43.0


From 6282383bbaff32b2d6f08dcada3920c709e5cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 43/69] fix: pearsonr_ci: small alpha must not be lost in 1 -
 alpha

Property: C24
---
 mpsci/stats/_pearsonr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index c16f53b..63f3961 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -125,19 +125,19 @@ def pearsonr_ci(r, n, alpha, alternative='two-sided'):
     alpha = mp.mpf(alpha)
     s = mp.sqrt(1/(n - 3))
     if alternative == 'two-sided':
-        h = normal.invcdf(1 - alpha/2)
+        h = normal.invsf(alpha/2)
         zlo = zr - h*s
         zhi = zr + h*s
         rlo = mp.tanh(zlo)
         rhi = mp.tanh(zhi)
     elif alternative == 'less':
-        h = normal.invcdf(1 - alpha)
+        h = normal.invsf(alpha)
         zhi = zr + h*s
         rhi = mp.tanh(zhi)
         rlo = -mp.one
     else:
         # alternative == 'greater'
-        h = normal.invcdf(1 - alpha)
+        h = normal.invsf(alpha)
         zlo = zr - h*s
         rlo = mp.tanh(zlo)
         rhi = mp.one
-- 
2.43.0


From dc2a1bcc5d268b1224e79680a35d68e059713fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 44/69] fix: fishers_noncentral_hypergeometric.support_pmf: do
 not expose the cached list

Property: C17,C18
---
 mpsci/distributions/fishers_noncentral_hypergeometric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/fishers_noncentral_hypergeometric.py b/mpsci/distributions/fishers_noncentral_hypergeometric.py
index 2909fff..12fc2f0 100644
--- a/mpsci/distributions/fishers_noncentral_hypergeometric.py
+++ b/mpsci/distributions/fishers_noncentral_hypergeometric.py
@@ -117,7 +117,8 @@ def support_pmf(nc, ntotal, ngood, nsample):
     _hg._validate(ntotal, ngood, nsample)
     prec = mp.prec
     sup, values = _support_pmf(nc, ntotal, ngood, nsample, prec)
-    return sup, values
+    # Return a copy, so the caller can not modify the cached list.
+    return sup, list(values)
 
 
 _c_k_formula = r"""
-- 
2.43.0


From 3c7500b8ba523a01bd4054e0224c197a9cf98570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 45/69] fix: trunc_discrete_exp: cancellation for small lam in
 logpmf, mean and var

Property: C10
---
 mpsci/distributions/trunc_discrete_exp.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/trunc_discrete_exp.py b/mpsci/distributions/trunc_discrete_exp.py
index 84952d7..50796b7 100644
--- a/mpsci/distributions/trunc_discrete_exp.py
+++ b/mpsci/distributions/trunc_discrete_exp.py
@@ -68,7 +68,7 @@ def logpmf(k, lam, n):
         return mp.ninf
     if lam == 0:
         return -mp.log(n)
-    return mp.log1p(-mp.exp(-lam)) - lam*k - mp.log1p(-mp.exp(-lam*n))
+    return mp.log(-mp.expm1(-lam)) - lam*k - mp.log(-mp.expm1(-lam*n))
 
 
 @mp.extradps(5)
@@ -127,8 +127,10 @@ def mean(lam, n):
     lam, n = _validate_params(lam, n)
     if lam == 0:
         return (n - mp.one)/2
-    nlam = n*lam
-    return -mp.exp(-lam)/mp.expm1(-lam) + n*mp.exp(-nlam)/mp.expm1(-nlam)
+    # Both terms are approximately 1/lam when lam is small.
+    with mp.extraprec(max(0, -mp.mag(lam))):
+        nlam = n*lam
+        return -mp.exp(-lam)/mp.expm1(-lam) + n*mp.exp(-nlam)/mp.expm1(-nlam)
 
 
 def mode(lam, n):
@@ -150,8 +152,10 @@ def var(lam, n):
     lam, n = _validate_params(lam, n)
     if lam == 0:
         return (mp.mpf(n)**2 - 1)/12
-    nlam = n*lam
-    return mp.exp(-lam)/mp.expm1(-lam)**2 - n**2 * mp.exp(-nlam)/mp.expm1(-nlam)**2
+    # Both terms are approximately 1/lam**2 when lam is small.
+    with mp.extraprec(max(0, -2*mp.mag(lam))):
+        nlam = n*lam
+        return mp.exp(-lam)/mp.expm1(-lam)**2 - n**2 * mp.exp(-nlam)/mp.expm1(-nlam)**2
 
 
 @mp.extradps(5)
-- 
2.43.0


From 270fc6433b38e1e575e096e1cd0e8c276e222b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 46/69] fix: logsumexp, marcumq, cmarcumq: convert the
 arguments to mpf before doing arithmetic with them

Property: C18,C22
---
 mpsci/fun/_logsumexp.py | 3 +++
 mpsci/fun/_marcumq.py   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/mpsci/fun/_logsumexp.py b/mpsci/fun/_logsumexp.py
index e8fe211..72c5ac8 100644
--- a/mpsci/fun/_logsumexp.py
+++ b/mpsci/fun/_logsumexp.py
@@ -41,7 +41,10 @@ def logsumexp(logs, weights=None):
     >>> mp.log(mp.fsum([wi*mp.exp(xi) for xi, wi in zip(x, w)]))
     mpf('1.838387764326144472528490234')
     """
+    logs = [mp.mpf(t) for t in logs]
     log_max = max(logs)
+    if log_max == mp.ninf:
+        return mp.ninf
     exps = [mp.exp(t - log_max) for t in logs]
     if weights is None:
         result = mp.log(mp.fsum(exps)) + log_max
diff --git a/mpsci/fun/_marcumq.py b/mpsci/fun/_marcumq.py
index 3ffadd5..141b1a2 100644
--- a/mpsci/fun/_marcumq.py
+++ b/mpsci/fun/_marcumq.py
@@ -40,6 +40,8 @@ def marcumq(m, a, b):
     mpf('0.07558718754263240906718640000640082605610073')
 
     """
+    a = mp.mpf(a)
+    b = mp.mpf(b)
     if a == 0:
         if m == 1:
             q = mp.exp(-b**2/2)
@@ -78,6 +80,8 @@ def cmarcumq(m, a, b):
 
     *See also:* :func:`marcumq`
     """
+    a = mp.mpf(a)
+    b = mp.mpf(b)
     if a == 0:
         if m == 1:
             q = -mp.expm1(-b**2/2)
-- 
2.43.0


From 905afc4dfcbcfa4af93155359153b3a09ff07cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 47/69] fix: logbeta, logbinomial: use enough precision for the
 cancellation of the loggamma terms

Property: C22
---
 mpsci/fun/_logbeta.py     |  7 ++++++-
 mpsci/fun/_logbinomial.py | 14 +++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/mpsci/fun/_logbeta.py b/mpsci/fun/_logbeta.py
index 42451c9..1a893fe 100644
--- a/mpsci/fun/_logbeta.py
+++ b/mpsci/fun/_logbeta.py
@@ -33,7 +33,12 @@ def logbeta(x, y):
     mpf('-1.575224779107371741939220592')
 
     """
-    return (mp.loggamma(x) + mp.loggamma(y) - mp.loggamma(mp.fsum([x, y])))
+    # When x or y is large, the terms can be much larger than the result.
+    xy = mp.fsum([x, y])
+    extra = max(0, mp.mag(x), mp.mag(y)) if mp.isfinite(xy) else 0
+    with mp.extraprec(extra):
+        return (mp.loggamma(x) + mp.loggamma(y)
+                - mp.loggamma(mp.fsum([x, y])))
 
 
 _beta_func_latex = r"""
diff --git a/mpsci/fun/_logbinomial.py b/mpsci/fun/_logbinomial.py
index 00e1276..c0d0a45 100644
--- a/mpsci/fun/_logbinomial.py
+++ b/mpsci/fun/_logbinomial.py
@@ -32,6 +32,14 @@ def logbinomial(n, k):
     if k > n:
         raise ValueError('k must not exceed n')
 
-    return (mp.loggamma(n + 1)
-            - mp.loggamma(k + 1)
-            - mp.loggamma(mp.fsum([n + 1, -k])))
+    n = mp.mpf(n)
+    k = mp.mpf(k)
+    if k == 0 or k == n:
+        return mp.zero
+    # When n is large, or k or n - k is very small, the terms can be much
+    # larger than the result.
+    extra = max(0, mp.mag(n), -mp.mag(k), -mp.mag(mp.fsum([n, -k])))
+    with mp.extraprec(extra):
+        return (mp.loggamma(n + 1)
+                - mp.loggamma(k + 1)
+                - mp.loggamma(mp.fsum([n, 1, -k])))
-- 
2.43.0


From 92b888840627c448c739548cf767b85d3e94ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 48/69] fix: stats.mean: do not compute the products x*weights
 in double precision

Property: C18,C23
---
 mpsci/stats/_basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 7d4d9c7..c69a9df 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -52,8 +52,7 @@ def mean(x, weights=None):
             return mp.fsum(x) / len(x)
         if mp.fsum(weights) == 0:
             raise ZeroDivisionError('sum(weights) must be nonzero.')
-        return (mp.fsum(t*w for t, w in zip(x, weights)) /
-                mp.fsum(weights))
+        return mp.fdot(x, weights) / mp.fsum(weights)
 
 
 def var(x, ddof=0):
-- 
2.43.0


From dca38516acde55e2961454f352914342cde37655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 49/69] fix: lehmer_mean: use extra precision for the
 intermediate results

Property: C23
---
 mpsci/stats/_basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index c69a9df..bbb376a 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -280,14 +280,14 @@ def lehmer_mean(x, *, p, weights=None):
     if p == 1:
         return mean(x, weights=weights)
     p = mp.mpf(p)
+    x = [mp.mpf(t) for t in x]
     if mp.isinf(p):
-        x = [mp.mpf(t) for t in x]
         if p < 0:
             return min(x)
         return max(x)
-    # x = [mp.mpf(t) for t in x]
-    return (mean([t**p for t in x], weights=weights) /
-            mean([t**(p - 1) for t in x], weights=weights))
+    with mp.extraprec(16):
+        return (mean([t**p for t in x], weights=weights) /
+                mean([t**(p - 1) for t in x], weights=weights))
 
 
 def unique_counts(x):
-- 
2.43.0


From bec7ab0f6f45bc967452d9528d33f50dc3eafdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 50/69] fix: gmean: x and weights must have the same length

Property: C23
---
 mpsci/stats/_basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index bbb376a..c15f15b 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -117,6 +117,8 @@ def gmean(x, *, weights=None):
     """
     if any(t < 0 for t in x):
         raise ValueError("all values in x must be nonnegative.")
+    if weights is not None and len(weights) != len(x):
+        raise ValueError('x and weights must have the same length.')
     with mp.extraprec(16):
         if weights is None:
             if 0 in x:
-- 
2.43.0


From b807cf615e20600844965bb40e064750e47cd627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 51/69] fix: unique_counts: accept an empty sequence

Property: C23
---
 mpsci/stats/_basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index c15f15b..3567659 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -311,5 +311,7 @@ def unique_counts(x):
     >>> counts
     (5, 2, 2, 1, 3, 1)
     """
+    if len(x) == 0:
+        return (), ()
     xv, xc = zip(*[(k, len(list(g))) for k, g in groupby(sorted(x))])
     return xv, xc
-- 
2.43.0


From fee3127f3b1049ac0e9e65069b22988bbe0eec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 52/69] fix: pmean: return 0 for negative p if a value is 0

Property: C23
---
 mpsci/stats/_basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 3567659..28cd149 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -220,6 +220,10 @@ def pmean(x, *, p, weights=None):
                 return max(mp.mpf(t) for t in x)
             return min(mp.mpf(t) for t in x)
 
+    if p < 0 and any(t == 0 for t in x):
+        # As in hmean, this is the limit as the value approaches 0.
+        return mp.zero
+
     with mp.extraprec(16):
         p = mp.mpf(p)
         return mp.power(mean([mp.mpf(t)**p for t in x], weights=weights), 1/p)
-- 
2.43.0


From 30c1780e948ca2c2d0d4a803e757a7b187b48284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 53/69] fix: logseries: cancellation for small p in var,
 skewness and kurtosis

Property: C10
---
 mpsci/distributions/logseries.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/mpsci/distributions/logseries.py b/mpsci/distributions/logseries.py
index 2aa3204..41cd487 100644
--- a/mpsci/distributions/logseries.py
+++ b/mpsci/distributions/logseries.py
@@ -99,8 +99,10 @@ def var(p):
     Variance of the log-series distribution.
     """
     p = _validate_p(p)
-    l1p = mp.log1p(-p)
-    return -(p*(p + l1p)) / (1 - p)**2 / l1p**2
+    # p + log1p(-p) loses precision when p is small.
+    with mp.extraprec(max(0, -mp.mag(p)) if p > 0 else 0):
+        l1p = mp.log1p(-p)
+        return -(p*(p + l1p)) / (1 - p)**2 / l1p**2
 
 
 def mode(p):
@@ -117,11 +119,13 @@ def skewness(p):
     Skewness of the log-series distribution.
     """
     p = _validate_p(p)
-    r = mp.log1p(-p)
-    s = p + r
-    num = p*(2*p + 3*r) + (1 + p)*r**2
-    den = -mp.sqrt(-p*s)*s
-    return num/den
+    # The sums lose precision when p is small.
+    with mp.extraprec(max(0, -2*mp.mag(p)) if p > 0 else 0):
+        r = mp.log1p(-p)
+        s = p + r
+        num = p*(2*p + 3*r) + (1 + p)*r**2
+        den = -mp.sqrt(-p*s)*s
+        return num/den
 
 
 @mp.extradps(5)
@@ -130,12 +134,14 @@ def kurtosis(p):
     Excess kurtosis of the log-series distribution.
     """
     p = _validate_p(p)
-    r = mp.log1p(-p)
-    r2 = r*r
-    r3 = r2*r
-    num = p*(p*(-6*p + r*(r*(-r - 4) - 12)) + r2*(-4*r - 7)) - r3
-    den = p*(p + r)**2
-    return num/den
+    # The sums lose precision when p is small.
+    with mp.extraprec(max(0, -3*mp.mag(p)) if p > 0 else 0):
+        r = mp.log1p(-p)
+        r2 = r*r
+        r3 = r2*r
+        num = p*(p*(-6*p + r*(r*(-r - 4) - 12)) + r2*(-4*r - 7)) - r3
+        den = p*(p + r)**2
+        return num/den
 
 
 @mp.extradps(5)
-- 
2.43.0


From 43217740d279fd90c4a574c82e5a2a0e46746bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 54/69] fix: digammainv: use enough precision for large
 negative arguments

Property: C21
---
 mpsci/fun/_digammainv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/fun/_digammainv.py b/mpsci/fun/_digammainv.py
index b28c9ae..3898632 100644
--- a/mpsci/fun/_digammainv.py
+++ b/mpsci/fun/_digammainv.py
@@ -52,7 +52,11 @@ def digammainv(y):
 
     solver = 'anderson'
     x0 = (4*x0/5, 5*x0/4)
-    x = mp.findroot(lambda x: mp.digamma(x) - y, x0, solver=solver)
+    # findroot uses absolute tolerances.  When y is large and negative, the
+    # root is approximately -1/y and the slope of digamma there is
+    # approximately y**2, so more precision is needed.
+    with mp.extraprec(max(0, 2*mp.mag(y)) if y < 0 else 0):
+        x = mp.findroot(lambda x: mp.digamma(x) - y, x0, solver=solver)
 
     return x
 
-- 
2.43.0


From badf1519aea0e6881d05e2646135de10a044571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 55/69] fix: betaincinv: no cancellation in the complement,
 tolerance relative to y

Property: C21
---
 mpsci/fun/_inv_reg_inc_beta.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpsci/fun/_inv_reg_inc_beta.py b/mpsci/fun/_inv_reg_inc_beta.py
index cc57129..ee71467 100644
--- a/mpsci/fun/_inv_reg_inc_beta.py
+++ b/mpsci/fun/_inv_reg_inc_beta.py
@@ -102,6 +102,11 @@ def betaincinv(a, b, y, method='findroot', complement=False):
     if complement:
 
         def func(t):
+            # Use the symmetry of the function to avoid the subtraction
+            # that occurs when the lower limit is not 0.
+            if mp.mag(t) > -mp.prec:
+                t1 = mp.fsub(1, t, exact=True)
+                return mp.betainc(b, a, 0, t1, regularized=True) - y
             return mp.betainc(a, b, t, 1, regularized=True) - y
 
     else:
@@ -116,7 +121,9 @@ def betaincinv(a, b, y, method='findroot', complement=False):
             raise RuntimeError('failed to find the inverse with bisection')
     else:
         try:
-            y = mp.findroot(func, x0)
+            # The tolerance of findroot is absolute, so solve func(t)/y = 0
+            # to get a result that is also correct when y is very small.
+            y = mp.findroot(lambda t: func(t)/y, x0)
         except Exception:
             raise RuntimeError('failed to find the inverse with '
                                'mpmath.mp.findroot')
-- 
2.43.0


From ffa098fafb033020c4d838031f859e7be3abb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 56/69] fix: inv_boxcox, inv_boxcox1p, inv_yeojohnson: do not
 round lambda*y

Property: C21
---
 mpsci/stats/_boxcox.py     | 6 ++++--
 mpsci/stats/_yeojohnson.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpsci/stats/_boxcox.py b/mpsci/stats/_boxcox.py
index eeb33e2..f48913b 100644
--- a/mpsci/stats/_boxcox.py
+++ b/mpsci/stats/_boxcox.py
@@ -80,6 +80,7 @@ boxcox1p._docstring_re_subs = [
 ]
 
 
+@mp.extradps(5)
 def inv_boxcox(y, lmbda):
     """
     Inverse with respect to x of ``boxcox(x, lmbda)``.
@@ -90,9 +91,10 @@ def inv_boxcox(y, lmbda):
     lmbda = mp.mpf(lmbda)
     if lmbda == 0:
         return mp.exp(y)
-    return inv_powm1(lmbda*y, lmbda)
+    return inv_powm1(mp.fmul(lmbda, y, exact=True), lmbda)
 
 
+@mp.extradps(5)
 def inv_boxcox1p(y, lmbda):
     """
     Inverse with respect to x of ``boxcox1p(x, lmbda)``.
@@ -103,4 +105,4 @@ def inv_boxcox1p(y, lmbda):
     lmbda = mp.mpf(lmbda)
     if lmbda == 0:
         return mp.expm1(y)
-    return inv_pow1pm1(lmbda*y, lmbda)
+    return inv_pow1pm1(mp.fmul(lmbda, y, exact=True), lmbda)
diff --git a/mpsci/stats/_yeojohnson.py b/mpsci/stats/_yeojohnson.py
index 0ec712b..a02985a 100644
--- a/mpsci/stats/_yeojohnson.py
+++ b/mpsci/stats/_yeojohnson.py
@@ -42,9 +42,9 @@ def inv_yeojohnson(x, lmbda):
     if x >= 0:
         if lmbda == 0:
             return mp.expm1(x)
-        return inv_pow1pm1(lmbda*x, lmbda)
+        return inv_pow1pm1(mp.fmul(lmbda, x, exact=True), lmbda)
     # x < 0:
     if lmbda == 2:
         return -mp.expm1(-x)
-    lmb2 = 2 - lmbda
-    return -inv_pow1pm1(-lmb2*x, lmb2)
+    lmb2 = mp.fsub(2, lmbda, exact=True)
+    return -inv_pow1pm1(-mp.fmul(lmb2, x, exact=True), lmb2)
-- 
2.43.0


From cb9d7360dca3b6e6208158575b92f88d487d6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 57/69] fix: spherical Bessel functions at 0 and on the
 negative axis

Property: C22
---
 mpsci/fun/_spherical_bessel.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mpsci/fun/_spherical_bessel.py b/mpsci/fun/_spherical_bessel.py
index 451b90b..fa9382b 100644
--- a/mpsci/fun/_spherical_bessel.py
+++ b/mpsci/fun/_spherical_bessel.py
@@ -2,6 +2,12 @@ import mpmath
 from mpmath import mp
 
 
+def _factor(z):
+    # This is sqrt(pi/(2*z)), with the square root evaluated so the functions
+    # are also on the correct branch when z is negative.
+    return mp.sqrt(mp.pi / 2) / mp.sqrt(z)
+
+
 @mp.extradps(5)
 def spherical_besselj(n, z):
     """
@@ -11,7 +17,9 @@ def spherical_besselj(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besselj(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
+    return mp.besselj(n + 0.5, z) * _factor(z)
 
 
 @mp.extradps(5)
@@ -23,7 +31,9 @@ def spherical_bessely(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.bessely(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return -mp.inf
+    return mp.bessely(n + 0.5, z) * _factor(z)
 
 
 @mp.extradps(5)
@@ -35,7 +45,9 @@ def spherical_besseli(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besseli(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
+    return mp.besseli(n + 0.5, z) * _factor(z)
 
 
 @mp.extradps(5)
@@ -47,4 +59,6 @@ def spherical_besselk(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besselk(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return mp.inf
+    return mp.besselk(n + 0.5, z) * _factor(z)
-- 
2.43.0


From 956d2ce32699f5b0ac8940803b869743f84ec660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 58/69] fix: faddeevaw: enough precision for exp(-z**2)

Property: C22
---
 mpsci/fun/_faddeevaw.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/fun/_faddeevaw.py b/mpsci/fun/_faddeevaw.py
index 070d5ee..938f92a 100644
--- a/mpsci/fun/_faddeevaw.py
+++ b/mpsci/fun/_faddeevaw.py
@@ -26,7 +26,10 @@ def faddeevaw(z):
      mpc(real='-0.08534318299726304595760856355', imag='-0.151844872400130328305182211'))
     """
     z = mp.mpc(z)
-    return mp.exp(-z**2) * mp.erfc(-1j*z)
+    # The absolute error of z**2 becomes the relative error of exp(-z**2).
+    with mp.extraprec(16 + max(0, 2*mp.mag(z)) if z != 0 else 0):
+        w = mp.exp(-z**2) * mp.erfc(-1j*z)
+    return +w
 
 
 faddeevaw._docstring_re_subs = [
-- 
2.43.0


From 5081fb041d8625ff720dae57122a3f780eb1da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 59/69] fix: multivariate_logbeta: cancellation for large
 arguments

Property: C22
---
 mpsci/fun/_logbeta.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpsci/fun/_logbeta.py b/mpsci/fun/_logbeta.py
index 1a893fe..a060c55 100644
--- a/mpsci/fun/_logbeta.py
+++ b/mpsci/fun/_logbeta.py
@@ -76,9 +76,15 @@ def multivariate_logbeta(alpha):
     >>> multivariate_logbeta([1.5, 2.0, 4.0, 1.25, 5.0])
     mpf('-17.15300326630985105656599532')
     """
-    terms = [mp.loggamma(t) for t in alpha]
-    terms.append(-mp.loggamma(mp.fsum(alpha)))
-    return mp.fsum(terms)
+    # When some of the alphas are large, the terms can be much larger than
+    # the result.
+    asum = mp.fsum(alpha)
+    extra = (max([0] + [mp.mag(t) for t in alpha]) if mp.isfinite(asum)
+             else 0)
+    with mp.extraprec(extra):
+        terms = [mp.loggamma(t) for t in alpha]
+        terms.append(-mp.loggamma(mp.fsum(alpha)))
+        return mp.fsum(terms)
 
 
 _mvbeta_func_latex = r"""
-- 
2.43.0


From a6139f1ed44e4b6ccd8f20eb873c389817f493c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 60/69] fix: debye: relative accuracy for small x with method
 quad

Property: C22
---
 mpsci/fun/_debye.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpsci/fun/_debye.py b/mpsci/fun/_debye.py
index 9ef7a59..56198ce 100644
--- a/mpsci/fun/_debye.py
+++ b/mpsci/fun/_debye.py
@@ -35,6 +35,16 @@ def debye(x, *, n, method='quad'):
         return mp.one
 
     if method == 'quad':
+        if abs(x) < 1:
+            # Scale the integral, so it is not tiny when x is small.
+            # (mp.quad has an absolute error tolerance.)
+            def scaled_integrand(u):
+                if u == 0:
+                    return mp.one if n == 1 else mp.zero
+                return x * u**n / mp.expm1(x * u)
+
+            return n*mp.quad(scaled_integrand, [0, 1])
+
 
         def integrand(t):
             if t == 0:
-- 
2.43.0


From c5b01614604abf0d517a9df2a640812e2e20c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 61/69] fix: gtest: cancellation; the p-value is real when the
 statistic rounds below 0

Property: C24
---
 mpsci/stats/_goftests.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_goftests.py b/mpsci/stats/_goftests.py
index 0188e78..dd23fac 100644
--- a/mpsci/stats/_goftests.py
+++ b/mpsci/stats/_goftests.py
@@ -51,7 +51,12 @@ def gtest(observed, expected, sum_rel_tol=None):
     if not mp.almosteq(sum(observed), sum(expected),
                        rel_eps=sum_rel_tol, abs_eps=0):
         raise ValueError('sum(observed) differs from sum(expected)')
-    stat = sum(2*xlogy(obs, obs/exp) for obs, exp in zip(observed, expected))
+    # The terms can cancel almost completely.
+    with mp.extraprec(mp.prec):
+        stat = sum(2*xlogy(obs, obs/exp)
+                   for obs, exp in zip(observed, expected))
+    # If the sums are not exactly the same, stat might be slightly negative.
+    stat = max(stat, mp.zero)
     df = len(observed) - 1
     p = mp.gammainc(df/2, stat/2) / mp.gamma(df/2)
-    return stat, p
+    return +stat, p
-- 
2.43.0


From d63e9786f1bb1f48a992924b28035ad9f4eea7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 62/69] fix: anova_oneway: compute the variation within groups
 without cancellation

Property: C24
---
 mpsci/stats/_anova.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpsci/stats/_anova.py b/mpsci/stats/_anova.py
index 036c052..221da45 100644
--- a/mpsci/stats/_anova.py
+++ b/mpsci/stats/_anova.py
@@ -57,12 +57,12 @@ def anova_oneway(*args):
         n += len(group)
         grand_total += mp.fsum(group)
     grand_mean = grand_total / n
+    means = [mean(group) for group in groups]
 
-    v = mp.fsum(mp.fsum((g - grand_mean)**2 for g in group)
-                for group in groups)
-    vb = mp.fsum(len(group)*(mean(group) - grand_mean)**2
-                    for group in groups)
-    vw = v - vb
+    vb = mp.fsum(len(group)*(m - grand_mean)**2
+                 for group, m in zip(groups, means))
+    vw = mp.fsum(mp.fsum((g - m)**2 for g in group)
+                 for group, m in zip(groups, means))
     F = vb/(num_groups - 1) / (vw/(n - num_groups))
     dof_num = num_groups - 1
     dof_den = n - num_groups
-- 
2.43.0


From 76d500eb46051395fb0457be5c7d35991e570194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 63/69] fix: odds_ratio_ci: sample interval, confidence levels
 0 and 1, small odds ratios

Property: C25
---
 mpsci/stats/_odds_ratio.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 95096c4..18b7a39 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -75,8 +75,10 @@ def _solve(func):
         hi = nc
 
     # lo and hi bracket the solution for nc.
-    nc = mp.findroot(func, (lo, hi), solver='illinois')
-    return nc
+    # Solve for log(nc), so the tolerance of findroot is relative to nc.
+    lognc = mp.findroot(lambda t: func(mp.exp(t)), (mp.log(lo), mp.log(hi)),
+                        solver='illinois')
+    return mp.exp(lognc)
 
 
 def _nc_hypergeom_mean_inverse(x, total, ngood, nsample):
@@ -102,14 +104,16 @@ def _ci_upper(table, alpha):
     """
     Compute the upper end of the confidence interval.
     """
-    if mp.isinf(_sample_odds_ratio(table)):
+    if alpha == 0 or mp.isinf(_sample_odds_ratio(table)):
         return mp.inf
+    if alpha == 1:
+        return mp.zero
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
 
     # fnch.cdf is a decreasing function of nc, so we negate
     # it in the lambda expression.
-    nc = _solve(lambda nc: -fnch.cdf(x, nc, total, ngood, nsample) + alpha)
+    nc = _solve(lambda nc: 1 - fnch.cdf(x, nc, total, ngood, nsample)/alpha)
     return nc
 
 
@@ -117,12 +121,14 @@ def _ci_lower(table, alpha):
     """
     Compute the lower end of the confidence interval.
     """
-    if _sample_odds_ratio(table) == 0:
+    if alpha == 0 or _sample_odds_ratio(table) == 0:
         return mp.zero
+    if alpha == 1:
+        return mp.inf
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
 
-    nc = _solve(lambda nc: fnch.sf(x - 1, nc, total, ngood, nsample) - alpha)
+    nc = _solve(lambda nc: fnch.sf(x - 1, nc, total, ngood, nsample)/alpha - 1)
     return nc
 
 
@@ -194,7 +200,7 @@ def _sample_odds_ratio_ci(table, confidence_level,
     oddsratio = _sample_odds_ratio(table)
     log_or = mp.log(oddsratio)
     a, b, c, d = _unpack_table_to_mpf(table)
-    se = mp.sqrt(sum(1/a + 1/b + 1/c + 1/d))
+    se = mp.sqrt(1/a + 1/b + 1/c + 1/d)
     if alternative == 'less':
         z = normal.invcdf(confidence_level)
         loglow = mp.ninf
-- 
2.43.0


From 122a74d9d2e3a34c3aa195a1f2055184b7545d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 64/69] fix: pmean, lehmer_mean: precision for small p;
 infinite p ignores values with weight 0

Property: C23
---
 mpsci/stats/_basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 28cd149..16922de 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -216,6 +216,8 @@ def pmean(x, *, p, weights=None):
         return hmean(x, weights=weights)
     if mp.isinf(p):
         with mp.extraprec(16):
+            if weights is not None:
+                x = [t for t, w in zip(x, weights) if w != 0]
             if p > 0:
                 return max(mp.mpf(t) for t in x)
             return min(mp.mpf(t) for t in x)
@@ -224,8 +226,9 @@ def pmean(x, *, p, weights=None):
         # As in hmean, this is the limit as the value approaches 0.
         return mp.zero
 
-    with mp.extraprec(16):
-        p = mp.mpf(p)
+    p = mp.mpf(p)
+    # The power 1/p magnifies rounding errors when p is small.
+    with mp.extraprec(16 + max(0, -mp.mag(p))):
         return mp.power(mean([mp.mpf(t)**p for t in x], weights=weights), 1/p)
 
 
@@ -288,6 +291,8 @@ def lehmer_mean(x, *, p, weights=None):
     p = mp.mpf(p)
     x = [mp.mpf(t) for t in x]
     if mp.isinf(p):
+        if weights is not None:
+            x = [t for t, w in zip(x, weights) if w != 0]
         if p < 0:
             return min(x)
         return max(x)
-- 
2.43.0


From 527b46c2e7cef6c77415cb5e049a9d64f1c60bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 65/69] fix: boxcox_llf: cancellation in the variance of the
 transformed data

Property: C26
---
 mpsci/stats/_boxcox_mle.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mpsci/stats/_boxcox_mle.py b/mpsci/stats/_boxcox_mle.py
index e310ab1..9054656 100644
--- a/mpsci/stats/_boxcox_mle.py
+++ b/mpsci/stats/_boxcox_mle.py
@@ -4,7 +4,7 @@ Box-Cox transformation.
 """
 
 from mpmath import mp
-from ._basic import var
+from ._basic import mean, var
 
 
 @mp.extradps(5)
@@ -19,16 +19,17 @@ def boxcox_llf(lam, x):
     logdata = [mp.log(t) for t in x]
     sumlogdata = mp.fsum(logdata)
 
-    # Compute the variance of the transformed data.
+    # Divide the data by its geometric mean before transforming it; this
+    # avoids the loss of precision that occurs in the calculation of the
+    # variance when lam is close to 0, and the contribution of the scale
+    # cancels lam*sumlogdata in the log-likelihood.
+    meanlog = mean(logdata)
     if lam == 0:
         variance = var(logdata)
     else:
-        # Transform without the constant offset 1/lam.  The offset does
-        # not effect the variance, and the subtraction of the offset can
-        # lead to loss of precision.
-        variance = var([t**lam / lam for t in x])
+        variance = var([mp.expm1(lam * (t - meanlog)) / lam for t in logdata])
 
-    return (lam - 1) * sumlogdata - n/2 * mp.log(variance)
+    return -sumlogdata - n/2 * mp.log(variance)
 
 
 @mp.extradps(10)
-- 
2.43.0


From 03d328779d7dbb729cdf0450fc75bb5ae8af45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 66/69] fix: yeojohnson_llf: cancellation in the variance of
 the transformed data

Property: C26
---
 mpsci/stats/_yeojohnson_mle.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_yeojohnson_mle.py b/mpsci/stats/_yeojohnson_mle.py
index 51016f1..5ae012b 100644
--- a/mpsci/stats/_yeojohnson_mle.py
+++ b/mpsci/stats/_yeojohnson_mle.py
@@ -38,8 +38,13 @@ def yeojohnson_llf(lam, x):
     if n == 0:
         raise ValueError('x must have at least one element')
 
-    y = [yeojohnson(t, lam) for t in x]
-    y_var = var(y)
+    # When lam is large, the transformed values can be nearly equal.
+    logscale = max(mp.log1p(abs(t)) for t in x)
+    extra = int(min(max(abs(lam), abs(2 - lam)) * logscale / mp.ln2,
+                    10*mp.prec))
+    with mp.extraprec(extra):
+        y = [yeojohnson(t, lam) for t in x]
+        y_var = var(y)
     log1psum = mp.fsum([mp.sign(t)*mp.log1p(abs(t)) for t in x])
     llf = -n/2 * mp.log(y_var) + (lam - 1)*log1psum
     return llf
-- 
2.43.0


From 4d5b5a9b274c01aa56e7b8558fec67196ffbaaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 67/69] fix: odds_ratio_ci: extra precision in the sample
 interval for levels near 1

Property: C25
---
 mpsci/stats/_odds_ratio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 18b7a39..0b93ef0 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -194,6 +194,7 @@ def _conditional_oddsratio_ci(table, confidence_level,
     return lower, upper
 
 
+@mp.extradps(5)
 def _sample_odds_ratio_ci(table, confidence_level,
                           alternative='two-sided'):
     confidence_level = mp.mpf(confidence_level)
-- 
2.43.0


From d407c6a53986c40b4644051644461df983e6defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 68/69] fix: multivariate_hypergeometric: mass is 0 outside the
 support; cov with nsample=0

Property: C19
---
 mpsci/distributions/multivariate_hypergeometric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 584c88d..385b28d 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -84,6 +84,11 @@ def logpmf(point, colors, nsample):
     mpf('-2.121263036533174590973082873')
     """
     _validate_params(colors, nsample)
+    if len(point) != len(colors):
+        raise ValueError("point and colors must have the same length.")
+    if (sum(point) != nsample
+            or any(k < 0 or k > color for color, k in zip(colors, point))):
+        return mp.ninf
     total = sum(colors)
     logdenom = logbinomial(total, nsample)
     lognumer = 0
@@ -197,7 +202,7 @@ def cov(colors, nsample):
     _validate_params(colors, nsample)
     n = len(colors)
     s = mp.fsum(colors)
-    if nsample == s:
+    if nsample == s or nsample == 0:
         return [[mp.zero]*n for _ in range(n)]
     u = [k / s for k in colors]
     f = nsample * (s - nsample) / (s - 1)
-- 
2.43.0


From d7ab0d8bdbafb0c109131583f39f10d8513733da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 69/69] fix: ncx2, ncf, nct: densities with noncentrality 0

Property: C20
---
 mpsci/distributions/ncf.py  | 5 +++++
 mpsci/distributions/nct.py  | 5 +++++
 mpsci/distributions/ncx2.py | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index 32968b9..f12aa37 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -5,6 +5,7 @@ Noncentral F distribution
 
 from mpmath import mp
 from ..fun import logbeta as _logbeta
+from . import f
 
 
 __all__ = ['pdf', 'cdf', 'support', 'mean', 'var']
@@ -44,6 +45,8 @@ def pdf(x, dfn, dfd, nc):
         if dfn == 2:
             return mp.exp(-nc/2)
         return mp.zero if dfn > 2 else mp.inf
+    if nc == 0:
+        return f.pdf(x, dfn, dfd)
     p = mp.nsum(_pdfk, [0, mp.inf])
     return p
 
@@ -77,6 +80,8 @@ def cdf(x, dfn, dfd, nc):
     dfn = mp.mpf(dfn)
     dfd = mp.mpf(dfd)
     nc = mp.mpf(nc)
+    if nc == 0:
+        return f.cdf(x, dfn, dfd)
     p = mp.nsum(_cdfk, [0, mp.inf])
     return p
 
diff --git a/mpsci/distributions/nct.py b/mpsci/distributions/nct.py
index c607911..c15f99a 100644
--- a/mpsci/distributions/nct.py
+++ b/mpsci/distributions/nct.py
@@ -10,6 +10,7 @@ noncentrality `nc`) are implemented.
 from functools import lru_cache
 import mpmath
 from mpmath import mp
+from . import studentt
 from ._common import _validate_moment_n
 
 
@@ -29,6 +30,8 @@ def pdf(x, df, nc):
     x = mp.mpf(x)
     df = mp.mpf(df)
     nc = mp.mpf(nc)
+    if nc == 0:
+        return studentt.pdf(x, df)
 
     if x == 0:
         logp = (-nc**2/2
@@ -65,6 +68,8 @@ def logpdf(x, df, nc):
     x = mp.mpf(x)
     df = mp.mpf(df)
     nc = mp.mpf(nc)
+    if nc == 0:
+        return studentt.logpdf(x, df)
 
     if x == 0:
         logp = (-nc**2/2
diff --git a/mpsci/distributions/ncx2.py b/mpsci/distributions/ncx2.py
index f845600..66813c7 100644
--- a/mpsci/distributions/ncx2.py
+++ b/mpsci/distributions/ncx2.py
@@ -5,6 +5,7 @@ Noncentral chi-square distribution
 
 from mpmath import mp
 from ..fun import marcumq, cmarcumq
+from . import chi2
 
 
 __all__ = ['pdf', 'cdf', 'sf', 'support', 'mean', 'var']
@@ -20,6 +21,8 @@ def pdf(x, k, lam):
     x = mp.mpf(x)
     k = mp.mpf(k)
     lam = mp.mpf(lam)
+    if lam == 0:
+        return chi2.pdf(x, k)
     p = (mp.exp(-(x + lam)/2) * mp.power(x / lam, (k/2 - 1)/2) *
          mp.besseli(k/2 - 1, mp.sqrt(lam*x))/2)
     return p
-- 
2.43.0

