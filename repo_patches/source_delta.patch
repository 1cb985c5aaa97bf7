From 15c44e69ea2b549efea6cc25ac6b43d6b94e37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 01/25] fix: honour masked times and NaT as missing times

np.asarray dropped the mask of a masked time array, and NaT was cast to a
huge negative datenum, so such samples were used (solve) or predicted
(reconstruct) at whatever time lay under the mask.
---
 utide/_time_conversion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..4dabc20 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -20,7 +20,7 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
 
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
-    date = np.asarray(date)
+    date = np.asanyarray(date)
 
     try:
         date = date.astype("datetime64[ms]")
@@ -37,8 +37,11 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
-    return datenum
+    delta = date - epoch
+    datenum = delta.astype(float) / _MS_PER_DAY
+    # NaT does not become nan when cast to float.
+    where = np.ma.where if np.ma.isMA(date) else np.where
+    return where(np.isnat(delta), np.nan, datenum)
 
 
 def _python_gregorian_datenum(date):
@@ -61,7 +64,7 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
-    t = np.asarray(t)
+    t = np.asanyarray(t)  # Keep the mask, if there is one.
 
     if epoch is None:
         # default datetime, datetime64, or datetime array
-- 
2.43.0


From 6c692fe5faee1e4d1ee383d8ff761f19aa5bf95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 02/25] fix: nodal corrections at the equator

np.sign(0) * 5 is 0, so at lat=0 the diurnal satellite factors divided by
zero and solve failed with LinAlgError (reconstruct gave nan).
---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..330f711 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = 5 if lat >= 0 else -5
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From aa85490d8ca663ddd85096386c6c7c1075d05d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 03/25] fix: accept a plain dict for infer, and don't modify it

The documented dict form raised AttributeError, a missing key raised
TypeError or AttributeError instead of the intended ValueError, and the
caller's Bunch gained an 'approximate' item.
---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..e81162e 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -88,10 +88,10 @@ def _translate_opts(opts):
 def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
+    infer = Bunch(infer)  # A copy: may be a plain dict, and is modified below.
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From d05708160c0a6a1a4d261b96f46fe6bc761a57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 04/25] fix: accept numpy arrays of names for constit and
 order_constit

Comparing an array with a string made e.g. constit=coef.name or
order_constit=coef.name fail with 'truth value is ambiguous'.
---
 utide/_solve.py                | 2 +-
 utide/constituent_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index e81162e..15e0a1e 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -112,7 +112,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return arg  # TODO: add checking of its elements
+        return list(arg)  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..3331318 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0


From 08660baf988c5ea7a4fa3d873639b100279e316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 05/25] fix: andrews, huber and logistic robust weight
 functions

They applied the builtin max to an array and so always raised; logistic
also used 1 instead of the machine epsilon as its lower limit.
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From f3ecb867407d34276168ee08834b74818213d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 06/25] fix: robustfit weights and rms_resid belong to the
 returned solution

When the iteration limit was reached the returned weights were those of a
next, never solved, iteration; and rms_resid was that of the previous
solution when the iteration converged.
---
 utide/robustfit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..513c3d5 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -172,7 +172,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
@@ -235,6 +235,9 @@ def robustfit(
         oldrsumsq = rsumsq
         oldrmeansq = rmeansq
 
+        if i == maxit - 1:
+            break  # Keep the weights that were used for this solution.
+
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
 
@@ -244,6 +247,7 @@ def robustfit(
     if iterations == 0:
         iterations = maxit  # Did not converge.
 
+    resid = y - np.dot(X, b)
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From f8aa8fc280acc9e0444aa427ad7486e62d2ab152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 07/25] fix: scale the u variances by the residual spectrum too

In the linearized 2-D case with coloured noise only the v variances were
scaled, so that the intervals changed when the axes were rotated by 90
degrees, and the residual spectrum of u was not used at all.
---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From 06bd619f784f705333b3d5c888586472d348160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 08/25] fix: honour min_PE when the solution has no confidence
 intervals

---
 utide/_reconstruct.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 67974c5..c23615a 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -92,21 +92,27 @@ def reconstruct(
 
 def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
     twodim = coef["aux"]["opt"]["twodim"]
+    nodiagn = coef["aux"]["opt"]["nodiagn"]
 
     # Determine constituents to include.
     if constit is not None:
         ind = [i for i, c in enumerate(coef["name"]) if c in constit]
-    elif (min_SNR == 0 and min_PE == 0) or coef["aux"]["opt"]["nodiagn"]:
+    elif min_PE == 0 and (min_SNR == 0 or nodiagn):
         ind = slice(None)
     else:
         if twodim:
             E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
-            N = (coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2
         else:
             E = coef["A"] ** 2
-            N = (coef["A_ci"] / 1.96) ** 2
-        SNR = E / N
         PE = 100 * E / E.sum()
+        if nodiagn:  # No confidence intervals, hence no SNR.
+            SNR = np.full_like(PE, np.inf)
+        elif twodim:
+            N = (coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2
+            SNR = E / N
+        else:
+            N = (coef["A_ci"] / 1.96) ** 2
+            SNR = E / N
         with np.errstate(invalid="ignore"):
             ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)
 
-- 
2.43.0


From 0eb2e6f208bdbc9c52e47c7682420f390ccba5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 09/25] fix: Bunch: missing t_mpl, printing of empty and
 mixed-key bunches

---
 utide/utilities.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..c1cdc13 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -80,8 +80,7 @@ class Bunch(dict):
         if fmt is None:
             fmt = self.str_fmt
 
-        items = list(self.items())
-        items.sort()
+        items = sorted(self.items(), key=lambda item: str(item[0]))
 
         klens = []
         vlens = []
@@ -94,8 +93,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
@@ -161,14 +160,14 @@ class Bunch(dict):
         if strict:
             bad = set(kw.keys()) - set(self.keys())
             if bad:
-                bk = list(bad)
-                bk.sort()
-                ek = list(self.keys())
-                ek.sort()
+                bk = sorted(bad, key=str)
+                ek = sorted(self.keys(), key=str)
                 raise KeyError(f"Update keys {bk} don't match existing keys {ek}")
 
     @property
     def t_mpl(self):
+        if "t_mpl" not in self:
+            raise AttributeError("'Bunch' object has no attribute 't_mpl'")
         warnings.warn(
             "t_mpl is being depreciated. Please directly input a time array and use variable t_in for plots.",
             category=FutureWarning,
-- 
2.43.0


From 428fa8b072ee6119fc24d22c6c95b2e5998dc477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 10/25] fix: accept any array_like (lists, tuples) for t, u and
 v

---
 utide/_solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 15e0a1e..0886ce6 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -466,6 +466,12 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    # Any array_like is fine; keep the subclass for masked arrays.
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From c48687293dcec8146f23a20308fe4f19286c06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 11/25] fix: approximate inference (crashed, and its correction
 was never applied)

---
 utide/_solve.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 0886ce6..9e8d29e 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -277,18 +277,20 @@ def _solv1(tin, uin, vin, lat, **opts):
 
         else:
             # Approximate inference.
-            Q = np.empty((coef.nR,), dtype=float)
-            beta = np.empty((coef.nR,), dtype=float)
+            Qbeta_p = np.empty((coef.nR,), dtype=complex)
+            Qbeta_m = np.empty((coef.nR,), dtype=complex)
 
             for k, ref in enumerate(cnstit.R):
                 E = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]
                 Etilp[:, k] = E
                 Etilm[:, k] = E
-                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args).real
-                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args).real
-                Q[k] = (num / den)[0, 0]
-                arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt
-                beta[k] = np.sin(arg) / arg
+                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args)
+                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args)
+                Q = (num / den)[0]
+                # np.sinc(x) is sin(pi x) / (pi x)
+                beta = np.sinc(lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt)
+                Qbeta_p[k] = (beta * Q * ref.I.Rp).sum()
+                Qbeta_m[k] = (beta * Q.conj() * ref.I.Rm).sum()
 
         B = np.hstack((B, Etilp, np.conj(Etilm)))
 
@@ -335,6 +337,11 @@ def _solv1(tin, uin, vin, lat, **opts):
     i0 = 2 * nNR + nR
     am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
 
+    if opt.infer is not None and opt.infer.approximate:
+        # Remove the estimated contribution of the inferred constituents.
+        ap[nNR:] /= 1 + Qbeta_p
+        am[nNR:] /= 1 + Qbeta_m
+
     Xu = np.real(ap + am)
     Yu = -np.imag(ap - am)
 
-- 
2.43.0


From f7ea85b80f1eb8b45e1960e06665b76827eb7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 12/25] fix: Monte Carlo intervals of theta and g when theta is
 near 0 or 180

---
 utide/confidence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..91c4f50 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -345,12 +345,14 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                g[0] = coef.g[c]
+                # (theta, g) and (theta + 180, g + 180) are the same ellipse.
+                dtheta = cluster(theta, 180) - theta
+                theta = theta + dtheta
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-                g[0] = coef.g[c]
-                g = cluster(g, 360)
+                g = cluster(g + dtheta, 360)
                 coef.g_ci[c] = (
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                 )  # noqa
-- 
2.43.0


From f5a1d34c8cc42e627bbb298a3e012c6efe5743d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 13/25] fix: refuse unknown values of method, phase and nodal

---
 utide/_solve.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 9e8d29e..5120ae3 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -30,11 +30,21 @@ default_opts = {
     "epoch": None,
 }
 
+# Options with a fixed set of values; others are validated separately.
+_available_opts = {
+    "method": ("ols", "robust"),
+    "phase": ("Greenwich", "linear_time", "raw"),
+    "nodal": (True, False, "linear_time"),
+}
+
 
 def _process_opts(opts, is_2D):
     newopts = Bunch(default_opts)
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
+    for key, available in _available_opts.items():
+        if newopts[key] not in available:
+            raise ValueError(f"'{key}' must be one of {available}")
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
-- 
2.43.0


From f385cfa1fb60ee9afcb9940c1ec1c4700a00df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 14/25] fix: don't share the default robust_kw with the
 returned options

---
 utide/_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 5120ae3..381a6e5 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -41,6 +41,7 @@ _available_opts = {
 def _process_opts(opts, is_2D):
     newopts = Bunch(default_opts)
     newopts.update_values(strict=True, **opts)
+    newopts.robust_kw = dict(newopts.robust_kw)  # Don't share the default.
     # TODO: add more validations.
     for key, available in _available_opts.items():
         if newopts[key] not in available:
-- 
2.43.0


From d12bed90310548b24196d3e3c350f3e2081e5371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 15/25] fix: inference when every listed constituent is a
 reference

---
 utide/constituent_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 3331318..6a403b7 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -53,6 +53,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
         RI_index_set = {constit_index_dict[n] for n in RIset}
         cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
 
+    cnstit.NR.lind = np.array(cnstit.NR.lind, dtype=int)  # Possibly empty.
     cnstit.NR.frq = freqs[cnstit.NR.lind]
     cnstit.NR.name = const.name[cnstit.NR.lind]
     nNR = len(cnstit.NR.frq)
-- 
2.43.0


From 9b0730788d4ca079c691fff0a300d1928be2e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 16/25] fix: intervals of robust solutions and of near-perfect
 fits (negative misfit)

---
 utide/confidence.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 91c4f50..1a0f156 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -179,27 +179,28 @@ def _confidence(
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
     # Make temporaries for quantities needed more than once.
-    _Wx = W * xraw
     _WB = W[:, np.newaxis] * B
 
-    # Matlab is recalculating xmod here; but we already have it.
-    # In the 1-D case xmod is only the real part, but in that
-    # case _Wx is real, and we are taking the real part in the
-    # end, so the imaginary part would not contribute anything.
     nt = len(xraw)
     nm = B.shape[1]
 
+    # Misfit.  With ordinary least squares this is the same as the difference
+    # between the products of xraw and of xmod with themselves; but that can be
+    # negative with robust weights, or when the residuals are very small.
+    resid = xraw - xmod
+    _Wr = W * resid
+
     # Mean Square Misfit: Eq. 52 (mean squared error).
-    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
+    varMSM = np.real(np.dot(resid.conj(), _Wr)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
     gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
 
     # Gamma_P: pseudo-covariance Eq. 54.
     gamP = np.linalg.inv(np.dot(B.T, _WB))
-    gamP *= (np.dot(xraw, _Wx) - np.dot(xmod, _Wx)) / (nt - nm)
+    gamP *= np.dot(resid, _Wr) / (nt - nm)
 
-    del _Wx, _WB
+    del _Wr, _WB
 
     # Eq. 55; convenient intermediate variables; see Eq. 51.
     Gall = gamC + gamP
-- 
2.43.0


From 47113dc2960d64122e8ab2a66a4452d7d125a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 17/25] fix: robust residual scale measured from zero

Measured from the median of the residuals, it vanished relative to them
when gross errors had shifted the first fit: all weights became zero and
robustfit raised IndexError (or recovered poorly).
---
 utide/robustfit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 513c3d5..13db412 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -88,10 +88,11 @@ tune_defaults = {
 
 def sigma_hat(x):
     """
-    Robust estimate of standard deviation based on medians.
+    Robust estimate of standard deviation of residuals, based on medians.
     """
-    # The center could be based on the mean or some other function.
-    return np.median(np.abs(x - np.median(x))) / 0.6745
+    # Residuals are measured from zero.  Measuring them from their median would
+    # give zero weight to all points if gross errors have shifted the fit.
+    return np.median(np.abs(x)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From cfbdbf12bd22b71475ef3a37b914cb63ec256c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 18/25] fix: robust fit of data that are fitted exactly (zero
 residual scale)

---
 utide/robustfit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 13db412..af778ec 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -241,6 +241,9 @@ def robustfit(
 
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
+        if sigma_hat(resid) == 0:
+            iterations = i + 1
+            break  # At least half of the points are fitted exactly.
 
         # Update weights based on these residuals.
         w = _wfunc(r_normed(resid, rfac))
-- 
2.43.0


From 5d5852e695005d2e19fe813a7042da3213c997e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 19/25] fix: intervals of velocities without variation in one
 direction (NaN)

---
 utide/confidence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1a0f156..fd91c2e 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -257,6 +257,9 @@ def _confidence(
                     varcov_mCc[c, :, :] = np.diag(
                         np.array([varXu, varYu, varXv, varYv]),
                     )
+                # Rounding can make zero variances (as with v = 0) negative.
+                variances = np.array([varXu, varYu, varXv, varYv])
+                varXu, varYu, varXv, varYv = np.maximum(variances, 0)
                 with np.errstate(invalid="ignore"):
                     sig1, sig2 = ut_linci(
                         Xu[c] + 1j * Xv[c],
@@ -378,6 +381,8 @@ def _confidence(
                 varYuHH = (rp.real**2 + rm.real**2) * varImap + (
                     rp.imag**2 + rm.imag**2
                 ) * varReap
+                varXuHH = np.maximum(varXuHH, 0)
+                varYuHH = np.maximum(varYuHH, 0)
                 for varX, varY in zip(varXuHH, varYuHH, strict=False):
                     if not opt.twodim:
                         sig1, sig2 = ut_linci(
-- 
2.43.0


From 09a6d50e7826c40122b1b76e8d1181d899f8e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 20/25] fix: coloured-noise intervals when a component has no
 variance (0/0)

---
 utide/confidence.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index fd91c2e..d08f067 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -145,6 +145,26 @@ def nearestSPD(A):
     return Ahat
 
 
+def _apportion(total, var1, var2):
+    """
+    Split *total* in proportion to two variances, evenly if both are zero.
+    """
+    den = var1 + var2
+    if den == 0:
+        return total / 2, total / 2
+    return total * var1 / den, total * var2 / den
+
+
+def _with_trace(total, D):
+    """
+    Scale a 2x2 covariance matrix so that its trace is *total*.
+    """
+    trace = np.trace(D)
+    if trace == 0:
+        return total / 2 * np.eye(2)
+    return total * D / trace
+
+
 def _confidence(
     coef,
     cnstit,
@@ -238,9 +258,7 @@ def _confidence(
             if not opt["twodim"]:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu]))
                 if not opt["white"]:
-                    den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
+                    varXu, varYu = _apportion(Puu[c], varXu, varYu)
                     varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
                 sig1, sig2 = ut_linci(Xu[c], Yu[c], np.sqrt(varXu), np.sqrt(varYu))
                 coef["A_ci"][c] = 1.96 * sig1
@@ -248,12 +266,8 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
-                    den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
-                    den = varXv + varYv
-                    varXv = Pvv[c] * varXv / den
-                    varYv = Pvv[c] * varYv / den
+                    varXu, varYu = _apportion(Puu[c], varXu, varYu)
+                    varXv, varYv = _apportion(Pvv[c], varXv, varYv)
                     varcov_mCc[c, :, :] = np.diag(
                         np.array([varXu, varYu, varXv, varYv]),
                     )
@@ -278,7 +292,7 @@ def _confidence(
             varcov_mCw[c, :2, :2] = Duu
 
             if not opt.white:
-                Duu = Puu[c] * Duu / np.trace(Duu)
+                Duu = _with_trace(Puu[c], Duu)
                 varcov_mCc[c, :2, :2] = Duu
 
             if not opt.twodim:
@@ -310,7 +324,7 @@ def _confidence(
                 varcov_mCw[c, 2:, 2:] = Dvv
 
                 if not opt.white:
-                    Dvv = Pvv[c] * Dvv / np.trace(Dvv)
+                    Dvv = _with_trace(Pvv[c], Dvv)
                     varcov_mCc[c, 2:, 2:] = Dvv
                 covXuXv = np.imag(-H[0, 0] - H[0, 1] - H[1, 0] - H[1, 1]) / 2
                 covXuYv = np.real(G[0, 0] - G[1, 1]) / 2
-- 
2.43.0


From e5149823138ccdc7b07db1361bc38f3a13e0a994 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 21/25] fix: with inference, take each constituent's own
 columns for its intervals

The columns of the reference constituents follow the positive and the negative
frequency columns of all the others, so that c and c + nc are not a pair.
---
 utide/confidence.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index d08f067..f2d85e6 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -227,6 +227,12 @@ def _confidence(
     Hall = gamC - gamP
 
     nc = len(Xu)
+    # Columns of B for the positive and negative frequencies of each constituent:
+    # those of the reference constituents follow those of all the others.
+    iR = 2 * coef.nNR + np.arange(coef.nR)
+    ipos = np.hstack((np.arange(coef.nNR), iR))
+    ineg = np.hstack((coef.nNR + np.arange(coef.nNR), coef.nR + iR))
+
     coef.g_ci = np.nan * np.ones_like(coef.g)
     if opt["twodim"]:
         coef.Lsmaj_ci = coef.g_ci.copy()
@@ -241,12 +247,9 @@ def _confidence(
         varcov_mCc = np.copy(varcov_mCw)
 
     for c in range(nc):
-        G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
-        )
-        H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
-        )
+        pair = [ipos[c], ineg[c]]
+        G = Gall[np.ix_(pair, pair)]
+        H = Hall[np.ix_(pair, pair)]
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
 
-- 
2.43.0


From 3e49cd6cd69c3dd65679f5aee318d521845fcc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 22/25] fix: intervals of inferred constituents follow from
 those of their reference

---
 utide/confidence.py | 47 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index f2d85e6..5705ee9 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -384,43 +384,20 @@ def _confidence(
         ind = nc
         if opt.linci:
             for k, ref in enumerate(cnstit.R):
-                varcov = varcov_mCw if opt.white else varcov_mCc
-                varReap = 0.25 * varcov[nNR + k, 0, 0]
-                varImap = 0.25 * varcov[nNR + k, 1, 1]
-                if opt.twodim:
-                    varReap += 0.25 * varcov[nNR + k, 3, 3]
-                    varImap += 0.25 * varcov[nNR + k, 2, 2]
-                rp = ref.I.Rp
-                rm = ref.I.Rm
-                varXuHH = (rp.real**2 + rm.real**2) * varReap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varImap
-                varYuHH = (rp.real**2 + rm.real**2) * varImap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varReap
-                varXuHH = np.maximum(varXuHH, 0)
-                varYuHH = np.maximum(varYuHH, 0)
-                for varX, varY in zip(varXuHH, varYuHH, strict=False):
+                iref = nNR + k
+                # The amplitude ratios and phase offsets are exact: the latter shift
+                # phases and orientations, the former scale the two rotary parts
+                # (Lsmaj + Lsmin) / 2 and (Lsmaj - Lsmin) / 2.
+                for rp, rm in zip(np.abs(ref.I.Rp), np.abs(ref.I.Rm), strict=False):
                     if not opt.twodim:
-                        sig1, sig2 = ut_linci(
-                            Xu[nNR + k],
-                            Yu[nNR + k],
-                            np.sqrt(varX),
-                            np.sqrt(varY),
-                        )
-                        coef.A_ci[ind] = 1.96 * sig1
-                        coef.g_ci[ind] = 1.96 * sig2
+                        coef.A_ci[ind] = rp * coef.A_ci[iref]
                     else:
-                        sig1, sig2 = ut_linci(
-                            Xu[nNR + k] + 1j * Xv[nNR + k],
-                            Yu[nNR + k] + 1j * Yv[nNR + k],
-                            np.sqrt(varX) + 1j * np.sqrt(varY),
-                            np.sqrt(varY) + 1j * np.sqrt(varX),
-                        )
-                        coef.Lsmaj_ci[ind] = 1.96 * sig1.real
-                        coef.Lsmin_ci[ind] = 1.96 * sig1.imag
-                        coef.g_ci[ind] = 1.96 * sig2.real
-                        coef.theta_ci[ind] = 1.96 * sig2.imag
+                        s, d = (rp + rm) / 2, (rp - rm) / 2
+                        maj, mnr = coef.Lsmaj_ci[iref], coef.Lsmin_ci[iref]
+                        coef.Lsmaj_ci[ind] = np.hypot(s * maj, d * mnr)
+                        coef.Lsmin_ci[ind] = np.hypot(d * maj, s * mnr)
+                        coef.theta_ci[ind] = coef.theta_ci[iref]
+                    coef.g_ci[ind] = coef.g_ci[iref]
                     ind += 1
         else:
             raise NotImplementedError("Monte Carlo inference not implemented")
-- 
2.43.0


From 867918b07376f3de64997959af41c3362eda3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 23/25] fix: keep the sign of the co-spectrum in coloured Monte
 Carlo intervals

---
 utide/confidence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 5705ee9..753b370 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -339,7 +339,9 @@ def _confidence(
 
                 if not opt.white:
                     if np.abs(Duv).sum() > 0:
-                        Duv = Puv[c] * Duv / np.abs(Duv).sum()
+                        # Puv has the sign of the covariance of u and v.
+                        total = np.copysign(np.abs(Duv).sum(), np.trace(Duv))
+                        Duv = Puv[c] * Duv / total
                         varcov_mCc[c, :2, 2:] = Duv
                         varcov_mCc[c, 2:, :2] = Duv.T
                     else:
-- 
2.43.0


From 887af94f60ceadc464185f6dcfc64e28de134d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 24/25] fix: no spurious warnings from Monte Carlo draws for
 data in large units

---
 utide/confidence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 753b370..02a9a95 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -305,12 +305,14 @@ def _confidence(
                         (Xu[c], Yu[c]),
                         varcov_mCc[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )
                 else:
                     mCall = np.random.multivariate_normal(
                         (Xu[c], Yu[c]),
                         varcov_mCw[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )
                 A, _, _, g = ut_cs2cep(mCall)
                 coef.A_ci[c] = (
@@ -353,12 +355,14 @@ def _confidence(
                         (Xu[c], Yu[c], Xv[c], Yv[c]),
                         varcov_mCc[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )  # noqa
                 else:
                     mCall = np.random.multivariate_normal(
                         (Xu[c], Yu[c], Xv[c], Yv[c]),
                         varcov_mCw[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )  # noqa
                 Lsmaj, Lsmin, theta, g = ut_cs2cep(mCall)
                 coef.Lsmaj_ci[c] = (
-- 
2.43.0


From 0c72341ee54a18afc9fdb82e60676f2529d0aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 25/25] fix: Bunch.from_pyfile keeps multi-line strings as they
 are

---
 utide/utilities.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index c1cdc13..3ab8385 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -1,3 +1,4 @@
+import ast
 import warnings
 
 import numpy as np
@@ -106,20 +107,14 @@ class Bunch(dict):
         # Python 3 the scoping for list comprehensions would
         # lead to a NameError.  Wrapping the code in a function
         # fixes this.
-        d = {}
-        lines = ["def _temp_func():\n"]
+        # It is wrapped after parsing: indenting the text would change
+        # the contents of multi-line strings.
         with open(filename) as f:
-            lines.extend(["    " + line for line in f])
-        lines.extend(
-            [
-                "\n    return(locals())\n",
-                "_temp_out = _temp_func()\n",
-                "del(_temp_func)\n",
-            ],
-        )
-        codetext = "".join(lines)
-        code = compile(codetext, filename, "exec")
-        exec(code, globals(), d)
+            body = ast.parse(f.read(), filename).body
+        tree = ast.parse("def _temp_func():\n    return locals()\n_temp_out = _temp_func()")
+        tree.body[0].body[:0] = body
+        d = {}
+        exec(compile(tree, filename, "exec"), globals(), d)
         self.update(d["_temp_out"])
         return self
 
-- 
2.43.0

