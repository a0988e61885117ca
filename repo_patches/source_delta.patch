From e6b80af664aea1f7a101bc02d5fdd342d08a5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 01/66] fix: wrap around when interpolating at the last delay
 bin

---
 qetpy/core/_fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..23f6884 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -294,8 +294,11 @@ class OptimumFilter(object):
 
         sf = 1 / (2 * delta**2)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        # the delays are circular, so the last bin is followed by the first
+        nextind = (bestind + 1) % len(vals)
+
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From fa5bd3cfd7880d7078de31618d4a6848a5d1ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 02/66] fix: evaluate the pileup chi2 at the given time of the
 first pulse

The index of the first pulse was found by truncating t1 * fs, which is off
by one bin for many times on the sampling grid due to rounding, and ignores
the fractional part of any other time.
---
 qetpy/core/_fitting.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 23f6884..9e3615d 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -690,16 +690,19 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # value of the filtered signal at t1, which is not necessarily on
+        # the sampling grid
+        signalfilt_t1 = np.real(
+            np.sum(
+                self.signalfilt * np.exp(2.0j * np.pi * self.freqs * t1)
+            )
+        ) * self.df
 
         # do a1 part of chi2
         chit = (
             a1**2 * self.norm
         ) - (
-            2 * a1 * self.signalfilt_td[t1ind] * self.norm
+            2 * a1 * signalfilt_t1 * self.norm
         )
 
         # do a1, a2 combined part of chi2
@@ -1297,14 +1300,13 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # value of the filtered signal at t1, which is not necessarily on the
+    # sampling grid
+    signalfilt_t1 = np.real(np.sum(signalfilt * np.exp(1.0j * omega * t1))) * df
 
     # last part of chi2
     chil = (
-        2 * a1 * signalfilt_td[t1ind] * norm
+        2 * a1 * signalfilt_t1 * norm
     ) + (
         2 * a2s * signalfilt_td * norm
     )
-- 
2.43.0


From 1ecba34d8015454f9ffad707ae20dd276a2fbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 03/66] fix: split the full amplitude between coincident pulses
 in stationary pileup

---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 9e3615d..e6e2b99 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -833,8 +833,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1430,8 +1430,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From cd352398d78219759b46fa3c198b9a575c19029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 04/66] fix: use relative derivative steps in the muon tail fit

The default steps of scipy are absolute for parameters below one, so they
were larger than the parameters themselves: the fit stopped away from the
minimum, and the reported errors were wrong.
---
 qetpy/core/_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index e6e2b99..70f5bce 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2549,6 +2549,8 @@ class MuonTailFit(object):
             bounds=bounds,
             x_scale=np.abs(p0),
             jac='3-point',
+            # steps relative to the parameters, which are much less than one
+            diff_step=np.finfo(float).eps**(1 / 3),
             loss='linear',
             xtol=2.3e-16,
             ftol=2.3e-16,
-- 
2.43.0


From 33a5ff61bac9174317bdb377e40201cab7d1de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 05/66] fix: get nonlinear pulse fit errors from a jacobian
 with relative steps

---
 qetpy/core/_fitting.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 70f5bce..0629da3 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2362,7 +2362,16 @@ class OFnonlin(object):
                 )
             )
 
-        jac = result['jac']
+        # the default derivative steps are absolute for parameters below
+        # one, so get the jacobian at the best fit with relative steps
+        jac = least_squares(
+            self.residuals,
+            x0=variables,
+            x_scale=p0,
+            jac='3-point',
+            diff_step=np.finfo(float).eps**(1 / 3),
+            max_nfev=1,
+        )['jac']
         cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
         errors = np.sqrt(cov.diagonal())
 
-- 
2.43.0


From b9b0b950eb0873ff3ac53495ee92cfcd0ffba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 06/66] fix: scale parameters before inverting the nonlinear
 fit information matrix

---
 qetpy/core/_fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 0629da3..8daf687 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2372,7 +2372,11 @@ class OFnonlin(object):
             diff_step=np.finfo(float).eps**(1 / 3),
             max_nfev=1,
         )['jac']
-        cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
+        # scale the parameters to comparable sizes before inverting
+        norms = np.sqrt(np.sum(jac**2, axis=0))
+        norms[norms == 0] = 1
+        jac = jac / norms
+        cov = np.linalg.pinv(np.dot(np.transpose(jac), jac)) / np.outer(norms, norms)
         errors = np.sqrt(cov.diagonal())
 
         if lgcplot:
-- 
2.43.0


From bbec059688e1569825cd39d371a0d21a3c379a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 07/66] fix: keep index arrays one-dimensional when a single
 template stays in the fit

---
 qetpy/core/_of_nsmb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..de11fd5 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.nonzero(bitmask)[0]
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.nonzero(bitcombfit_it1)[0]
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.nonzero(bitcombfit_it2)[0]
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.nonzero(bitcombfit_it3)[0]
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From a051680f22c676b3000e6ce500d01722fdef61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 08/66] fix: allow a single background template in
 of_nsmb_setup

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index de11fd5..bfc81ee 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:,:,0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
-- 
2.43.0


From e4e1dea357ca4a45325c5d6bb9cda6a9e61fbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 09/66] fix: wrap around when interpolating the constrained fit
 at the edge bins

---
 qetpy/core/_of_nsmb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index bfc81ee..b1bb3aa 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1110,10 +1110,17 @@ def _interpchi2(indmin, chi2, amp, time):
 
     """
 
-    t_to_interp = time[int(indmin-1):int(indmin+2)]
-        
-    chi2_interp = chi2[int(indmin-1):int(indmin+2)]
-    amin_s_interp = amp[int(indmin-1):int(indmin+2)]
+    # the delays are circular, so the neighbors of the first and
+    # last bins are at the other end of the arrays
+    ind = int(indmin)
+    ind_interp = np.arange(ind - 1, ind + 2)
+
+    t_to_interp = time.take(ind_interp, mode='wrap')
+    period = time[-1] - time[0] + (time[1] - time[0])
+    t_to_interp = t_to_interp + period * (ind_interp // len(time))
+
+    chi2_interp = chi2.take(ind_interp, mode='wrap')
+    amin_s_interp = amp.take(ind_interp, mode='wrap')
 
     z_interp = np.polyfit(t_to_interp, chi2_interp,2)
     f_interp = np.poly1d(z_interp)
-- 
2.43.0


From 38060acea8bd5cfbefc54b087e9451843c3658ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 10/66] fix: do not modify the search window passed to of_nsmb

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b1bb3aa..ebeb975 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -567,7 +567,7 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     """
 
-    indwindow = indwindow_nsmb[0]
+    indwindow = np.copy(indwindow_nsmb[0])
 
     # === Input Dimensions ===
     pulset = np.expand_dims(pulset,1)
-- 
2.43.0


From e06f95c47fb9473808e7eb6b0dcfc8061919126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 11/66] fix: wrap around search window indices in of_nsmb_con

---
 qetpy/core/_of_nsmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index ebeb975..9d3112f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -957,7 +957,8 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         chi2new[ii] = chi2base-chi2t0setMask
         
         
-    indwindow = indwindow_nsmb[0]
+    # negative or too large indices wrap around, as in of_nsmb
+    indwindow = np.mod(indwindow_nsmb[0], nt)
     chi2new = np.squeeze(chi2new)
     chi2min= np.amin(chi2new[indwindow])
     ind_tdel_smNew = np.argmin(chi2new[indwindow])
-- 
2.43.0


From 2d1a7b9fe2e567c8a7ddbac6d55a0bf246e0495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 12/66] fix: make the slope template the requested length for
 every trace length

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 9d3112f..cd26ba9 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1200,7 +1200,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1298,7 +1298,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 68b060ee8cfde625288b41cd64d4bcbd7383472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 13/66] fix: find the constrained minimum for strongly
 correlated templates

---
 qetpy/core/_of_nsmb.py | 113 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 113 insertions(+)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index cd26ba9..d6eed23 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -462,6 +462,10 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bOnlyACon = np.zeros((nsb-ns,1))
     bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
 
+    # if that missed the constrained minimum, use the full active set algorithm
+    if not _is_constrained_min(B, backgroundsum[:,0], bOnlyACon[:,0], bkgpolarityconstraint):
+        bOnlyACon = _fit_constrained(B, backgroundsum[:,0], bkgpolarityconstraint)[0][:,None]
+
     # calc chi2 of constrained background only fit
     bestFitBOnlyCon = btemplate@bOnlyACon
     # make residual (pulse minus background best fit)
@@ -949,6 +953,15 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             # reset the a_tsetnew vector
             a_tsetnew[:,ii]=np.squeeze(a_tsetnewonet)
 
+        # the steps above can miss the constrained minimum when the
+        # templates are strongly correlated, so fall back to the full
+        # active set algorithm if they did
+        if not _is_constrained_min(Pt_tset, qt_tset[:,0], a_tsetnew[:,ii], sbpolcon):
+            a_tsetnew[:,ii], bitcombfit = _fit_constrained(Pt_tset, qt_tset[:,0], sbpolcon)
+            indexBitMask = np.nonzero(bitcombfit)[0]
+            qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
+            a_tsetMask = a_tsetnew[indexBitMask,ii][:,None]
+
         #save the bitcombfit array
         bitcombfitVec[:,ii]= bitcombfit
             
@@ -1173,6 +1186,106 @@ def _index_disallowed(amp_array, con_array):
 
     return bitcomb_forcezero
 
+def _is_constrained_min(Pt, qt, amps, con_array):
+    """
+    Function that checks if the amplitudes have allowed polarities and
+    if the amplitudes that are zero only leave the allowed region when
+    following the negative gradient of the chi2
+
+    Parameters
+    ----------
+    Pt : ndarray
+        Matrix of dot products between the templates
+        Dimensions : nsb X nsb
+    qt : ndarray
+        Dot products of the templates with the data
+        Dimensions : nsb X ()
+    amps : ndarray
+        The amplitudes to check
+        Dimensions : nsb X ()
+    con_array : ndarray
+        The array indicating the allowed region, see `_index_disallowed`
+
+    Returns
+    -------
+    lgcmin : bool
+        Whether or not the amplitudes are the constrained minimum
+
+    """
+
+    con_array = np.asarray(con_array)
+    if np.any(con_array * amps < 0):
+        return False
+
+    norm = np.sqrt(np.diag(Pt))
+    scale = np.max(np.abs(qt)/norm)
+    neggrad = con_array * (qt - Pt@amps) / norm
+
+    return not np.any((amps == 0) & (neggrad > 1e-9 * scale))
+
+def _fit_constrained(Pt, qt, con_array):
+    """
+    Function for minimizing the chi2 with the amplitudes in the allowed
+    region, using the active set algorithm of Lawson and Hanson
+
+    Parameters
+    ----------
+    Pt : ndarray
+        Matrix of dot products between the templates
+        Dimensions : nsb X nsb
+    qt : ndarray
+        Dot products of the templates with the data
+        Dimensions : nsb X ()
+    con_array : ndarray
+        The array indicating the allowed region, see `_index_disallowed`
+
+    Returns
+    -------
+    amps : ndarray
+        The amplitudes at the constrained minimum
+        Dimensions : nsb X ()
+    bitcombfit : ndarray
+        Array of ones and zeros, with ones for the amplitudes that float
+        Dimensions : nsb X ()
+
+    """
+
+    con_array = np.asarray(con_array)
+    nsb = len(qt)
+    norm = np.sqrt(np.diag(Pt))
+    scale = np.max(np.abs(qt)/norm)
+
+    def fitfloating(floating):
+        amps = np.zeros(nsb)
+        ind = np.nonzero(floating)[0]
+        amps[ind] = np.linalg.pinv(Pt[np.ix_(ind, ind)])@qt[ind]
+        return amps
+
+    floating = (con_array == 0)
+    amps = fitfloating(floating)
+
+    for _ in range(3 * nsb):
+        # float the amplitude that lowers the chi2 the fastest
+        neggrad = np.where(floating, 0, con_array * (qt - Pt@amps) / norm)
+        if np.max(neggrad) <= 1e-12 * scale:
+            break
+        floating[np.argmax(neggrad)] = True
+        ampsnew = fitfloating(floating)
+        disallowed = floating & (con_array * ampsnew < 0)
+
+        # stop at the boundary of the allowed region and remove
+        # the amplitudes that reached it
+        while np.any(disallowed):
+            step = amps[disallowed] / (amps[disallowed] - ampsnew[disallowed])
+            amps = amps + np.min(step) * (ampsnew - amps)
+            floating[np.nonzero(disallowed)[0][step <= np.min(step)]] = False
+            amps[~floating] = 0
+            ampsnew = fitfloating(floating)
+            disallowed = floating & (con_array * ampsnew < 0)
+        amps = ampsnew
+
+    return amps, floating.astype(int)
+
 def get_slope_dc_template_nsmb(nbin):
     """
     Function for constructing the background templates for the OF nsmb fit when
-- 
2.43.0


From 27f2a3c419e2d332c6f4f6d72fd9c0173b5da8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 14/66] fix: calculate the dI/dV fall times from the roots of
 their polynomial

---
 qetpy/core/didv/_base_didv.py | 36 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..6d44fd7 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -1,7 +1,6 @@
 import warnings
 import numpy as np
 from numpy import pi
-from scipy.optimize import least_squares, fsolve
 from scipy.fftpack import fft, ifft, fftfreq
 
 from qetpy.utils import resample_data
@@ -898,33 +897,28 @@ class _BaseDIDV(object):
             # two pole fall times for didv is different than tau1, tau2
             A, B, tau1, tau2, dt = params
 
-            def twopoleequations(p):
-                taup,taum = p
-                eq1 = taup+taum - A/(A+B)*(tau1+tau2)
-                eq2 = taup*taum-A/(A+B)*tau1*tau2
-                return (eq1, eq2)
+            # the sum and product of the fall times
+            tausum = A/(A+B)*(tau1+tau2)
+            tauprod = A/(A+B)*tau1*tau2
 
-            taup, taum = fsolve(twopoleequations ,(tau1, tau2))
-            falltimes = np.array([taup, taum])
+            falltimes = np.roots([1.0, -tausum, tauprod])
 
         elif len(params)==7:
             # three pole fall times for didv is different
             # than tau1, tau2, tau3
             A, B, C, tau1, tau2, tau3, dt = params
 
-            def threepoleequations(p):
-                taup, taum, taun = p
-                eq1 = taup+taum+taun-(
-                    A*tau1+A*(1.0-C)*tau2+(A+B)*tau3
-                )/(A*(1.0-C)+B)
-                eq2 = taup*taum+taup*taun+taum*taun - (
-                    tau1*tau2+tau1*tau3+tau2*tau3
-                )*A/(A*(1.0-C)+B)
-                eq3 = taup*taum*taun - tau1*tau2*tau3*A/(A*(1.0-C)+B)
-                return (eq1, eq2, eq3)
-
-            taup, taum, taun = fsolve(threepoleequations, (tau1, tau2, tau3))
-            falltimes = np.array([taup, taum, taun])
+            # the sum, sum of pairwise products, and product of the
+            # fall times
+            tausum = (
+                A*tau1+A*(1.0-C)*tau2+(A+B)*tau3
+            )/(A*(1.0-C)+B)
+            taupairs = (
+                tau1*tau2+tau1*tau3+tau2*tau3
+            )*A/(A*(1.0-C)+B)
+            tauprod = tau1*tau2*tau3*A/(A*(1.0-C)+B)
+
+            falltimes = np.roots([1.0, -tausum, taupairs, -tauprod])
 
         else:
             print("Wrong number of input parameters, returning zero...")
-- 
2.43.0


From 2f7bd2a15cf9c8cc476732e82874d83cf93852d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 15/66] fix: do not lose a dI/dV period to rounding

---
 qetpy/core/didv/_base_didv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 6d44fd7..860fa81 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -951,12 +951,12 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        binsperperiod = int(np.rint(self._fs/self._sgfreq))
+        nperiods = nbinsraw//binsperperiod
 
         # find which indices to keep in order to have an
         # integer number of periods
-        indmax = int(nperiods*self._fs/self._sgfreq)
+        indmax = nperiods*binsperperiod
         good_inds = range(0, indmax)
 
         # ignore the tail of the trace after the last period,
-- 
2.43.0


From e813cd75787213b376c08150f9896ad43411bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 16/66] fix: add the half period to the dI/dV time offset only
 once

---
 qetpy/core/didv/_base_didv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 860fa81..7d50f28 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -475,6 +475,11 @@ class _BaseDIDV(object):
         self._add180phase = add180phase
         self._dt0 = dt0
 
+        # add half a period of the square wave frequency to the
+        # initial offset if add180phase is True
+        if (self._add180phase):
+            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+
         self._freq = None
         self._time = None
         self._ntraces = None
@@ -942,11 +947,6 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
-
         self._time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
-- 
2.43.0


From c1625a028fd052170ab03017031ed70bab5b1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 17/66] fix: do not add the half period twice in the fit with
 priors

---
 qetpy/core/didv/_didv_priors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..bb8edd2 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,6 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From 8b83d54694cc707803a174c610c0e10b003e9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 18/66] fix: ignore the drive harmonics that vanish for the
 given duty cycle

---
 qetpy/core/didv/_base_didv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 7d50f28..c55d367 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -672,6 +672,12 @@ class _BaseDIDV(object):
             )*sgamp*rsh*tracelength*(
                 np.exp(-2.0j*pi*freq[eveninds]/sgfreq*dutycycle)-1
             )
+            # harmonics that vanish for this duty cycle would otherwise
+            # be left at the level of the floating point error
+            nullinds = (np.abs(
+                np.mod(np.abs(freq/sgfreq)*dutycycle+0.5, 1)-0.5
+            )<1e-8)
+            sf[nullinds] = 0.0j
 
         # the tracelength/2 value from the FFT is purely real, which can cause
         # errors when taking the standard deviation (get stddev = 0 for real
-- 
2.43.0


From 9cca22f7f681423e6c0e390bfdf7bae1f1ff2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 19/66] fix: take the flat part of the dI/dV trace from the
 given duty cycle

---
 qetpy/core/didv/_base_didv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index c55d367..cfa8fcb 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -981,13 +981,13 @@ class _BaseDIDV(object):
         for i in range(0, int(nperiods)):
             # get index ranges for flat parts of trace
             flatindlow = int(
-                (float(i) + 0.25) * period_unscaled
+                (float(i) + 0.5 * self._dutycycle) * period_unscaled
             ) + int(self._dt0 * self._fs)
             flatindhigh = int(
-                (float(i) + 0.48) * period_unscaled
+                (float(i) + 0.96 * self._dutycycle) * period_unscaled
             ) + int(self._dt0 * self._fs)
-            flatindstemp.append(range(flatindlow, flatindhigh))
-        flatinds = np.array(flatindstemp).flatten()
+            flatindstemp.append(np.arange(flatindlow, flatindhigh))
+        flatinds = np.concatenate(flatindstemp)
 
         self._flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
-- 
2.43.0


From f987c080a37d21a64585522e794bb27a56eaf5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 20/66] fix: resample to an integer number of samples per
 period for every drive frequency

---
 qetpy/utils/_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..3f3e454 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -1,3 +1,4 @@
+import math
 import numpy as np
 from scipy import interpolate, signal, constants
 from scipy import ndimage
@@ -104,17 +105,21 @@ def resample_factors(fs, sgfreq):
 
     rfacs = factorrat(S(int(fs)) / int(sgfreq))
     numer = [key for key in rfacs if rfacs[key] > 0]
-    denom = [key for key in rfacs if rfacs[key] < 0]
+    denom = [key**-rfacs[key] for key in rfacs if rfacs[key] < 0]
 
     if len(denom)==0:
         return 1, 1
 
-    down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    # use python integers to avoid overflows
+    down = math.prod(int(n) for n in numer)
 
-    # round up if `sgfreq` is prime (otherwise would return 0)
+    # `up` must be a multiple of the entire denominator
+    denom = math.prod(int(d) for d in denom)
+    up = round(down / denom) * denom
+
+    # round up if the denominator is large (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = denom
 
     return int(up), int(down)
 
-- 
2.43.0


From e82279820b84693d98a62de0cff70b17a03723be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 21/66] fix: start dI/dV fits from averaged data at the given
 duty cycle

---
 qetpy/core/didv/_didv.py        | 16 ++++++++++------
 qetpy/core/didv/_didv_priors.py |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e54e886..6f20243 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -14,7 +14,7 @@ __all__ = [
 
 def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
                      sgamp, rsh, r0=0.3, rp=0.005, add180phase=False,
-                     dt0=10.0e-6):
+                     dt0=10.0e-6, dutycycle=0.5):
     """
     Function to initialize and process a dIdV dataset without having
     all of the traces, but just the parameters that are required for
@@ -62,6 +62,9 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
         converges. The fit can have a difficult time finding the value
         on the first run if it the initial value is far from the actual
         value, so a solution is to do this iteratively.
+    dutycycle : float, optional
+        The duty cycle of the signal generator, should be a float
+        between 0 and 1. Set to 0.5 by default
 
     Returns
     -------
@@ -79,6 +82,7 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
         rsh,
         r0=r0,
         rp=rp,
+        dutycycle=dutycycle,
         add180phase=add180phase,
         dt0=dt0,
     )
@@ -97,19 +101,19 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
     didvobj._freq = np.fft.fftfreq(len(tmean), d=1.0 / fs)
 
     nbins = len(didvobj._tmean)
-    nperiods = np.floor(nbins*didvobj._sgfreq/didvobj._fs)
+    nperiods = nbins // int(np.rint(didvobj._fs/didvobj._sgfreq))
 
     flatindstemp = list()
     for i in range(0, int(nperiods)):
         # get index ranges for flat parts of trace
         flatindlow = int(
-            (float(i) + 0.25) * didvobj._fs / didvobj._sgfreq
+            (float(i) + 0.5 * dutycycle) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
         flatindhigh = int(
-            (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
+            (float(i) + 0.96 * dutycycle) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
-        flatindstemp.append(range(flatindlow, flatindhigh))
-    flatinds = np.array(flatindstemp).flatten()
+        flatindstemp.append(np.arange(flatindlow, flatindhigh))
+    flatinds = np.concatenate(flatindstemp)
 
     didvobj._flatinds = flatinds[np.logical_and(
         flatinds > 0, flatinds < nbins,
diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index bb8edd2..66a4eee 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -258,6 +258,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
+            dutycycle=self._dutycycle,
         )
 
         DIDVGuess.dofit(poles, fcutoff=fcutoff)
-- 
2.43.0


From 2bcecd77f1ef4ade60f7165adfe644cadb05edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 22/66] fix: do not start the 3-pole dI/dV fit from a vanishing
 time constant

---
 qetpy/core/didv/_didv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 6f20243..7cf0824 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -504,7 +504,9 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 B0 = -abs(self._2poleresult['params']['B'])
                 C0 = -0.05
                 tau10 = -abs(self._2poleresult['params']['tau1']) 
-                tau20 = self._2poleresult['params']['tau2']
+                # the 2-pole fit may have ended with a vanishing tau2, which
+                # would not be able to vary in the 3-pole fit
+                tau20 = max(self._2poleresult['params']['tau2'], 1.0e-7 / A0)
                 tau30 = 1.0e-3
                 dt0 = self._2poleresult['params']['dt']
 
-- 
2.43.0


From 148cd7074aefbb62df32f287a790e69c79264045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 23/66] fix: invert the prior covariance independent of the
 parameters' units

---
 qetpy/core/didv/_didv_priors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 66a4eee..1838249 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -354,6 +354,13 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
 
         guess = self._guessparams(poles, fcutoff, priors)
 
+        # scale by the standard deviations before inverting, as parameters
+        # in different units have variances many orders of magnitude apart
+        priorsstd = np.sqrt(np.diag(priorscov))
+        priorsstd[priorsstd==0] = 1
+        scale = np.outer(priorsstd, priorsstd)
+        invpriorscov = np.linalg.pinv(priorscov / scale) / scale
+
         guess_new = [g if p == 0 else p for g, p in zip(guess, priors)]
 
         params, cov, cost = DIDVPriors._fitdidv(
@@ -361,7 +368,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._didvmean[fit_freqs] * self._rsh,
             poles,
             priors,
-            np.linalg.pinv(priorscov),
+            invpriorscov,
             p0=guess_new,
             yerr=self._didvstd[fit_freqs] * self._rsh,
         )
-- 
2.43.0


From c2ec386180adc358d3ad09de659db893df3205dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 24/66] fix: continue the dI/dV fit with priors until it
 converges

---
 qetpy/core/didv/_didv_priors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 1838249..ff4ef49 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -231,6 +231,12 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
 
         m.migrad()
 
+        # carry on if the call limit was reached before converging
+        nrestart = 0
+        while not m.migrad_ok() and nrestart < 10:
+            m.migrad()
+            nrestart += 1
+
         popt = m.np_values()
         pcov = m.np_covariance()
         cost = m.fval
-- 
2.43.0


From 263cf60217925cd8e28c4b6ea047cb32a70bbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 25/66] fix: do not truncate the interpolated values when
 shifting integer arrays

---
 qetpy/utils/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 3f3e454..6e9204d 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -63,7 +63,12 @@ def shift(arr, num, fill_value=0):
             result[:] = arr
     else:
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            arr,
+            num,
+            output=np.result_type(np.asarray(arr), float),
+            order=1,
+            mode='constant',
+            cval=fill_value,
         )
 
     return result
-- 
2.43.0


From 9fd65747aa036037f4263c2d46d194e3ada00c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 26/66] fix: keep zeros and arrays that never decrease in
 make_decreasing

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 6e9204d..c1cc458 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -246,16 +246,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    # nothing to interpolate between if no values were lower than the first
+    if np.sum(interp_inds) == 1:
+        return np.full(len(y), y[0], dtype=float)
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0


From 01c2df1870b8f4db79daca329a17f295e61a5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 27/66] fix: do not lose a period to rounding in calc_offset

---
 qetpy/utils/_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index c1cc458..3344cba 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -298,8 +298,7 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
+        period_bins = fs / sgfreq
         n_periods = int(x.shape[-1] / period_bins)
         x = x[..., :int(n_periods * period_bins)]
 
-- 
2.43.0


From 85ed6aff5752f4a306a07ea93616897ac89c5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 28/66] fix: use the given filter settings when aligning traces

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 3344cba..131c55f 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -433,7 +433,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From 9337e55789903c43880b3c6bb7b20645290969d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 29/66] fix: join the baseline regions along the time axis in
 energy_absorbed

---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 131c55f..5e16a86 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -618,7 +618,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From 8fcab9e0809a13819e5191bb3641aa0b55f7aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 30/66] fix: fold integer valued PSDs

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..7453caa 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -35,7 +35,7 @@ def foldpsd(psd, fs):
     """
     
     psd_folded = np.copy(psd[:len(psd)//2+1])
-    psd_folded[1:len(psd)//2+(len(psd))%2] *= 2.0
+    psd_folded[1:len(psd)//2+(len(psd))%2] *= 2
     f = rfftfreq(len(psd),d=1.0/fs)
     
     return f, psd_folded
-- 
2.43.0


From 4c03fbabfb88baf900c04d09501ba7695b8bd987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 31/66] fix: fold the PSD along the frequency axis for
 multi-channel traces

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 7453caa..6721b70 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -78,7 +78,7 @@ def calc_psd(x, fs=1.0, folded_over=True):
             
         # multiply the necessary frequencies by two (zeroth frequency should be the same, as
         # should the last frequency when x.shape[-1] is odd)
-        psd[1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
+        psd[..., 1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
         f = rfftfreq(x.shape[-1], d=1.0/fs)
     else:
         # if folded_over = False, we calculate the Fourier Transform for all frequencies
-- 
2.43.0


From 969d42e2bc866a373517b6e477ce3338a2c94a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 32/66] fix: do not modify the PSD passed to gen_noise

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 6721b70..4f9895c 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.copy(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From a6afc01d64ec1241423069e5e3ef6e3fcc44ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 33/66] fix: fold the zero and Nyquist frequencies of the noise
 PSD only once

---
 qetpy/core/_noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 4f9895c..21d9e6a 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -304,11 +304,16 @@ class Noise(object):
         psd_chan = np.abs(fft)**2
         real_psd_chan = np.real(fft)**2
         imag_psd_chan = np.imag(fft)**2
+        # the zero and (for even lengths) Nyquist frequencies have no negative counterpart
+        fold = np.full(fft.shape[-1], 2.0)
+        fold[0] = 1.0
+        if traceshape[2] % 2 == 0:
+            fold[-1] = 1.0
         # take the average of the psd's for each trace, normalize, and fold over the 
         # negative frequencies since they are symmetric
-        psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
-        real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
-        imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+        psd = np.mean(psd_chan, axis = 0)*fold/(traceshape[2]*self.fs) 
+        real_psd = np.mean(real_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)
+        imag_psd = np.mean(imag_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)  
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From bbd6e3c24f458ea0750f0dab5b3b0d7d4db09b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 34/66] fix: save the real and imaginary PSD plot when asked to

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 21d9e6a..6d46c19 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -442,7 +442,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From eaaedf79d1d4cc231897fc9cf4933fcbf28417d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 35/66] fix: look up the channels in compare_noise

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..3bbd908 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].chandict:
+                        chan_index = arr[ii].chandict[chan] #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From b634ee3247ddc94600d7d6f0ea913dcced053267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 36/66] fix: do not lose the slope of y when x is far from zero

---
 qetpy/utils/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 5e16a86..8f7e557 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -332,8 +332,9 @@ def slope(x, y, removemeans=True):
     """
 
     x_mean = np.mean(x) if removemeans else 0
+    y_mean = np.mean(y) if removemeans else 0
 
-    return np.sum((x - x_mean) * (y - x_mean)) / np.sum((x - x_mean) ** 2)
+    return np.sum((x - x_mean) * (y - y_mean)) / np.sum((x - x_mean) ** 2)
 
 def fill_negatives(arr):
     """
-- 
2.43.0


From e6cff33f8fe054437d0196858bec7787ef28779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 37/66] fix: report the error in the fit resistance of the IV
 class

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 3799a7c4303bc690f512fcfa39024267aa93706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 38/66] fix: use the load resistance given for every bias point

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 7bd103435b852f2c79109553beba99d26ceac724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 39/66] fix: allow a scalar parasitic resistance for one- and
 two-dimensional data

---
 qetpy/core/_ibis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..a209bdf 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
-- 
2.43.0


From 10b3caf559410fa9d8a492e0d4316aad2eae52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 40/66] fix: use the parasitic resistance given for every bias
 point

---
 qetpy/core/_ibis.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index a209bdf..33678e0 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
@@ -640,14 +644,14 @@ class IBIS(object):
                     cov[2,2] = self.dites_err[t,ch, ii]**2
                     cov[3,3] = self.ioff_err[t, ch]**2
                     cov[4,4] = self.rsh_err**2
-                    cov[5,5] = self.rp_err[t, ch]**2
+                    cov[5,5] = rp_err[t, ch, ii]**2
                     self.r0[t, ch, ii] = IBIS._rtes(
                         self.ibias[t, ch, ii],
                         self.ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                     )
                     self.r0_err[t, ch, ii] = IBIS._rtes_err(
                         self.ibias[t, ch, ii],
@@ -655,7 +659,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                         cov,
                     )
                     self.ptes[t, ch, ii] = IBIS._ptes(
@@ -664,7 +668,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                     )
                     self.ptes_err[t, ch, ii] = IBIS._ptes_err(
                         self.ibias[t, ch, ii],
@@ -672,7 +676,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                         cov,
                     )
 
-- 
2.43.0


From 9e2041bede9a6bd963a7b33da249ba8d802c2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 41/66] fix: allow the default error with an array of parasitic
 resistances

---
 qetpy/core/_ibis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 33678e0..36f7bde 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -205,6 +205,9 @@ class IBIS(object):
         self.ibias = np.reshape(ibias, (ntemps, nch, niters))
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
+        if not np.isscalar(rp_guess) and np.isscalar(rp_err_guess):
+            rp_err_guess = np.ones_like(rp_guess)*rp_err_guess
+
         if np.isscalar(rp_guess):
             self.rp_guess = np.ones_like(self.dites)*rp_guess
             self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
-- 
2.43.0


From 83d1c4b5010e23e02297e810abc417934b7f4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 42/66] fix: use the standard deviation of the fit slope in the
 resistance errors

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 36f7bde..7319fec 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -481,7 +481,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -514,9 +514,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From d0abc755aba22b6e2118e08bde988cf2208ed3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 43/66] fix: propagate the normal slope error to the current
 offset

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 7319fec..80b7f13 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -580,7 +580,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 1f5d590829e56706c511c159f28bfca7936cfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 44/66] fix: allow scalar offsets in IBIS.analyze

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 80b7f13..0705fbd 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -608,13 +608,13 @@ class IBIS(object):
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = np.ones_like(int_n) * yoff
+            ioff_err = np.ones_like(int_n) * yoff_err
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = np.ones_like(int_n) * xoff
+            ibias_off_err = np.ones_like(int_n) * xoff_err
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From 1b6c3c97864d5a40ff06a0e6c0b90fe70c44fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 45/66] fix: use the error of the normal fit intercept when
 there is no SC fit

---
 qetpy/core/_ibis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 0705fbd..aaa6a38 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -603,6 +603,11 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        # without the SC fit, the offset is the intercept of the normal fit
+        if not self.fitsc:
+            ioff_err = int_n_err
+            ibias_off_err = np.zeros_like(int_n)
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
         if yoff is None:
-- 
2.43.0


From 41db7367a5cbf04786f70680e024ec75d9f6026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 46/66] fix: allow arrays of temperatures and channels in the
 IV plots

---
 qetpy/plotting/_ibis_plotting.py | 12 ++++++------
 qetpy/plotting/_iv_plotting.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index 856cab3..dca9e3c 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -33,14 +33,14 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -114,14 +114,14 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -186,14 +186,14 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index 27ef5c7..a40e587 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -38,14 +38,14 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -137,14 +137,14 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -222,14 +222,14 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
-- 
2.43.0


From 7f21c29448f84b1c6f710bbfa0cc468dc08c645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 47/66] fix: return the figure of the IV plots when saving it

---
 qetpy/plotting/_ibis_plotting.py | 15 ++++++---------
 qetpy/plotting/_iv_plotting.py   | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index dca9e3c..7dd1e6d 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -84,9 +84,8 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     if lgcsave:
         fig.savefig(savepath+"iv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax
+
+    return fig, ax
 
 def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
     """
@@ -156,9 +155,8 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     if lgcsave:
         fig.savefig(savepath+"rv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax    
+
+    return fig, ax
 
 def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", savename=""):
     """
@@ -228,9 +226,8 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     if lgcsave:
         fig.savefig(savepath+"pv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax
+
+    return fig, ax
         
 def _plot_all_curves(IVobject,  temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
     """
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index a40e587..ac247be 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -107,9 +107,8 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     if lgcsave:
         fig.savefig(savepath + "iv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax
+
+    return fig, ax
 
 def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
     """
@@ -192,9 +191,8 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     if lgcsave:
         fig.savefig(savepath + "rv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax    
+
+    return fig, ax
 
 def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
     """
@@ -277,9 +275,8 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     if lgcsave:
         fig.savefig(savepath + "pv_curve_{}.png".format(savename))
         plt.close(fig)
-    else:
-        #plt.show()
-        return fig, ax
+
+    return fig, ax
 
 def plot_all_curves(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
     """
-- 
2.43.0


From 2e038acf52ce5f7672eec9f3633e46b76e26de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 48/66] fix: reject the traces that fail the slope cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..549e234 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueErrror("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 33da3ef84ea5101c2ac477831603cfe02d1bb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 49/66] fix: flip the sign of mostly positive values in
 symmetrizedist

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 549e234..87f5a8d 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From 047d417c806602fb190f17dc66ebe124fc4b7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 50/66] fix: raise ValueError for an unknown outlier algorithm
 in the cuts

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87f5a8d..4bd51ee 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.zeros(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 1ebcfe879c1542c933f137b735599bfc212b5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 51/66] fix: do not modify the traces in the pileup cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 4bd51ee..11baf6e 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From fad33cffda87b5cf3b6e37a3f3d6647262d3c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 52/66] fix: use the trace length in get_muon_cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 11baf6e..87d1362 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From a858d1e77c698c4af86c1daf55d7c853c5d0c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 53/66] fix: make the unbiased estimators of iterstat
 independent of the units of the data

---
 qetpy/cut/_cut.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87d1362..5191de1 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -143,7 +143,21 @@ class _UnbiasedEstimators(object):
 
         """
 
-        self.mu, self.std = optimize.fsolve(self._equations, (self.mu0, self.std0))
+        if self._lenx == 0 or not self.std0 > 0:
+            self.mu, self.std = self.mu0, self.std0
+            return
+
+        # solve in units of the biased estimators, such that the solver converges
+        # independently of the units of the data
+        norm = self._lenx * np.array([self.std0 + 1 / self.std0, self.std0**2])
+
+        def scaled_equations(p):
+            return self._equations((self.mu0 + p[0] * self.std0, p[1] * self.std0)) / norm
+
+        mu, std = optimize.fsolve(scaled_equations, (0.0, 1.0))
+
+        self.mu = self.mu0 + mu * self.std0
+        self.std = std * self.std0
 
 
 def iterstat(data, cut=3, precision=1000.0, return_unbiased_estimates=False):
-- 
2.43.0


From c147192a288cc3ae8ceb2d48195edfdd7d59bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 54/66] fix: compare the noise type by value in loadfromdidv

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From b879ce1ecd7015586e08670d1d415107de945a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 55/66] fix: allow loading the normal noise from the dIdV fit

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From a9f397990102a6584f7b7f5dd54405d027bb605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 56/66] fix: use the right normalization for two-sided psds in
 energy_res_estimate

---
 qetpy/sim/_sim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 78ff35a..20ac1ab 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -33,6 +33,13 @@ def energy_res_estimate(freqs, tau_collect, Sp, collection_eff):
 
     """
 
+    freqs, Sp = np.broadcast_arrays(freqs, Sp)
+    if np.any(freqs < 0):
+        # convert the two-sided psd to the one-sided convention used below
+        inds = np.argsort(freqs)
+        freqs = freqs[inds]
+        Sp = 4*Sp[inds]
+
     omega = 2*np.pi*freqs
     single_pole = collection_eff/(1.+ omega*tau_collect*1j)
     integrand = 2*np.abs(single_pole)**2/(np.pi*Sp)
-- 
2.43.0


From a27ca43c03a4f580067277c35638f5a89ca478cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 57/66] fix: compare the noise type by value in plot_noise_sim

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 3bbd908..0193081 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -545,25 +545,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From 8e6472f70be91871978042949c07dcbf7099c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 58/66] fix: do not change the noise model when plotting it

---
 qetpy/plotting/_noise_plotting.py | 42 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 0193081..179fdc4 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -598,7 +598,6 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -613,36 +612,36 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Current Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ites())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ites(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_iload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_iload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_isquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_isquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
@@ -686,7 +685,6 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -701,36 +699,36 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Power Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptes())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptes(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_pload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_pload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_psquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_psquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
-- 
2.43.0


From 6797f71487888c9ecbfa3d61e913b13cb9670760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 59/66] fix: do not low-pass filter above the Nyquist frequency
 in plotnsmb

---
 qetpy/plotting/_of_nsmb_plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qetpy/plotting/_of_nsmb_plotting.py b/qetpy/plotting/_of_nsmb_plotting.py
index 1af69b1..ab908d8 100644
--- a/qetpy/plotting/_of_nsmb_plotting.py
+++ b/qetpy/plotting/_of_nsmb_plotting.py
@@ -51,6 +51,10 @@ def plotnsmb(pulset, fs, tdelmin, amin, sbTemplatef, nS, nB, nt, psddnu,
 
     nSB = nS + nB
 
+    if lpFiltFreq is not None and lpFiltFreq >= fs / 2:
+        # nothing to filter out below the Nyquist frequency
+        lpFiltFreq = None
+
     if (lpFiltFreq!=None):
         pulseFilt = lowpassfilter(pulset, lpFiltFreq, fs)
 
-- 
2.43.0


From 15df6b6bfca36b949526bbfd5810c7b00f0534cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 60/66] fix: allow arrays of poles in the dI/dV plots

---
 qetpy/core/didv/_plot_didv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index a7369e3..b34eba5 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -43,7 +43,7 @@ class _PlotDIDV(object):
     def _plot_time_domain(self, poles):
         """Helper function for plotting the fits in time domain."""
 
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -296,7 +296,7 @@ class _PlotDIDV(object):
     def _plot_freq_domain(self, function, poles):
         """Helper method for plotting data in frequency domain."""
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -521,7 +521,7 @@ class _PlotDIDV(object):
 
         """
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
-- 
2.43.0


From ce19c1d2b230881b5a51bc5e5189553cfd9d235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 61/66] fix: show the flipped data in the legend of the flipped
 dI/dV plot

---
 qetpy/core/didv/_plot_didv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index b34eba5..db2e52f 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -283,6 +283,7 @@ class _PlotDIDV(object):
             color='blue',
             label='Flipped Data',
         )
+        ax.legend(loc='upper left')
 
         ax.set_title("Flipped Traces to Check Asymmetry")
 
-- 
2.43.0


From 2270b206e49fcef21e6811d1eddd800af03797fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 62/66] fix: plot non-linear fits of pulses in short traces or
 near the start of the trace

---
 qetpy/plotting/_fitting_plotting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/plotting/_fitting_plotting.py b/qetpy/plotting/_fitting_plotting.py
index ed8228e..df307d1 100644
--- a/qetpy/plotting/_fitting_plotting.py
+++ b/qetpy/plotting/_fitting_plotting.py
@@ -51,12 +51,16 @@ def plotnonlin(OFnonlinOBJ, pulse, params, errors):
         nmax = t0ind + int(9 * tau_f1 * OFnonlinOBJ.fs) # 9 falltimes after offset
     else:
         nmax = t0ind + int(7 * tau_f * OFnonlinOBJ.fs) # 7 falltimes after offset
+    nmin = max(nmin, 0) # pulses near the start of the trace
 
     nbaseline = int(OFnonlinOBJ.fs * t0) - 1000
     if nbaseline > 0:
         pulse = pulse - np.mean(pulse[:nbaseline])
-    else:
+    elif nbaseline + 10000 < len(pulse):
         pulse = pulse - np.mean(pulse[nbaseline + 10000:])
+    elif t0ind > 0:
+        # short trace, only what is before the pulse is left
+        pulse = pulse - np.mean(pulse[:t0ind])
 
     f = OFnonlinOBJ.freqs
     cf = f > 0
-- 
2.43.0


From 84b79ed803c7f1d27baf41e38de79c86852d5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 63/66] fix: keep the sign of the two-pole pulse spectrum when
 the rise is slower than the fall

---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 8daf687..6ad2630 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1920,8 +1920,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From 9962513d95d06e5f27a2d677fd421ffa6e050f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 64/66] fix: allow a guess of zero for the time offset of the
 dI/dV fit

---
 qetpy/core/didv/_didv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 7cf0824..7602158 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -257,6 +257,12 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 (np.inf, np.inf, np.inf, np.inf, np.inf, np.inf, np.inf),
             )
 
+        # the scale of each parameter must be positive, also if the
+        # time offset is guessed to be exactly zero
+        x_scale = np.abs(p0)
+        if x_scale[-1] == 0:
+            x_scale[-1] = 1.0e-6
+
         def _residual(params):
             """
             Define a residual for the nonlinear least squares
@@ -305,7 +311,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # res2 assumes loop gain < 1, where B>0 and tauI>0
             res2 = least_squares(
@@ -315,7 +321,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # check which loop gain cases gave the better fit
             if (res1['cost'] < res2['cost']):
@@ -331,7 +337,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
         else:
             #assume loop gain > 1, where B<0 and tauI<0
@@ -342,7 +348,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
 
         popt = res['x']
-- 
2.43.0


From cd9142931aa4c39da6d30c5ea1b3080e697f4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 65/66] fix: look for stationary pileup outside the window by
 default, as documented

---
 qetpy/core/_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 6ad2630..e920b08 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1330,7 +1330,7 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     return a1, t1, a2, t2, chi2
 
 def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
-                            nconstrain=None, lgcoutsidewindow=False):
+                            nconstrain=None, lgcoutsidewindow=True):
     """
     Function for calculating the optimum amplitude of a pileup pulse in
     data, with the assumption that the triggered pulse is centered in
-- 
2.43.0


From d16e1763c7fc37364ca2c5d8914a0352ca725bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 66/66] fix: finish the dI/dV fit with priors with a least
 squares fit

Minuit could stop far from the minimum, and its numerical second
derivatives underestimate the errors of strongly correlated parameters.
---
 qetpy/core/didv/_didv_priors.py | 47 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index ff4ef49..fbfbf7d 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -231,16 +231,42 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
 
         m.migrad()
 
-        # carry on if the call limit was reached before converging
-        nrestart = 0
-        while not m.migrad_ok() and nrestart < 10:
-            m.migrad()
-            nrestart += 1
-
         popt = m.np_values()
-        pcov = m.np_covariance()
         cost = m.fval
 
+        # Minuit might have stopped before reaching the minimum, and its
+        # numerical second derivatives cannot resolve strongly correlated
+        # parameters, so finish with a least squares fit of the residuals
+        # and the (whitened) priors, which also gives the covariance matrix
+        norm = np.sqrt(np.diag(invpriorscov))
+        norm[norm == 0] = 1
+        eigval, eigvec = np.linalg.eigh(invpriorscov / np.outer(norm, norm))
+        whiten = (eigvec * np.sqrt(np.clip(eigval, 0, None))).T * norm
+
+        scale = np.maximum(np.abs(popt), np.abs(p0))
+        scale[scale == 0] = m.np_errors()[scale == 0]
+        lower = np.append(np.zeros(len(popt) - 1), -np.inf)
+        result = least_squares(
+            lambda x: np.append(
+                _residual(x * scale), whiten.dot(x * scale - priors),
+            ),
+            popt / scale,
+            jac='3-point',
+            bounds=(lower, np.inf),
+            x_scale='jac',
+        )
+
+        if result['cost'] < cost:
+            popt = result['x'] * scale
+            cost = result['cost']
+
+        # invert with a unit diagonal, such that no direction is lost due to
+        # the different scales of the parameters
+        pcovinv = np.dot(result['jac'].transpose(), result['jac'])
+        norm = np.sqrt(np.diag(pcovinv))
+        pcov = np.linalg.pinv(pcovinv / np.outer(norm, norm))
+        pcov *= np.outer(scale / norm, scale / norm)
+
         return popt, pcov, cost
 
 
@@ -363,9 +389,12 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
         # scale by the standard deviations before inverting, as parameters
         # in different units have variances many orders of magnitude apart
         priorsstd = np.sqrt(np.diag(priorscov))
-        priorsstd[priorsstd==0] = 1
+        known = np.ix_(priorsstd > 0, priorsstd > 0)
         scale = np.outer(priorsstd, priorsstd)
-        invpriorscov = np.linalg.pinv(priorscov / scale) / scale
+        invpriorscov = np.zeros(priorscov.shape)
+        invpriorscov[known] = np.linalg.pinv(
+            priorscov[known] / scale[known]
+        ) / scale[known]
 
         guess_new = [g if p == 0 else p for g, p in zip(guess, priors)]
 
-- 
2.43.0

