From 05c98864a3f6c7e50ae8a8c195ca34801dab79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 01/58] fix: read binary chain segments in chain order, not
 alphabetical order

---
 pymcmcstat/chain/ChainProcessing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..e3d2272 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -9,6 +9,7 @@ import json
 import h5py
 import numpy as np
 import os
+import re
 import warnings
 
 
@@ -246,6 +247,10 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
     return chainfolders
 
 
+def _numeric_sort_key(name):
+    return [int(digits) for digits in re.findall(r'\d+', name)]
+
+
 def read_in_bin_file(filename):
     '''
     Read in information from file containing binary data.
@@ -261,7 +266,8 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        # data sets - h5py lists names alphabetically, so restore chain order
+        ds = sorted(hf.keys(), key=_numeric_sort_key)
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
-- 
2.43.0


From 4885d0fee6eb95db8ad60243ea77a59de0c46618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:17 +0000
Subject: [PATCH 02/58] fix: list parallel chain folders in chain order
 (chain_2 before chain_10)

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index e3d2272..7e3884b 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -243,7 +243,7 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    chainfolders.sort(key=_numeric_sort_key)  # sort elements
     return chainfolders
 
 
-- 
2.43.0


From 57c439daa599b5465e74ad44b633b14ba430d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 03/58] fix: loading saved results raised when log files
 contained a chain

---
 pymcmcstat/ParallelMCMC.py          | 2 +-
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..6006747 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -399,7 +399,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 7e3884b..615467f 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -88,7 +88,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -124,7 +124,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
-- 
2.43.0


From 6e4dd226e77252a5e71ee27050a7567e41ae81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:34 +0000
Subject: [PATCH 04/58] fix: load parallel results whose json files include the
 chains

---
 pymcmcstat/ParallelMCMC.py          | 10 +++++-----
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 6006747..c02e620 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,11 +401,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 615467f..305cf5a 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -126,11 +126,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From 8b264889a7dc326865edddd90fc46e2479138fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 05/58] fix: load_serial_simulation_results ignored the
 requested json_file

---
 pymcmcstat/chain/ChainProcessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 305cf5a..16051e0 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -69,11 +69,12 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
-    for item in items:
-        if item.endswith('.json'):
-            json_file = item
-            break
+    if json_file is None:
+        items = os.listdir(savedir)
+        for item in items:
+            if item.endswith('.json'):
+                json_file = item
+                break
     if json_file is not None:
         results = load_json_object(savedir + os.sep + json_file)
     else:
-- 
2.43.0


From 7c75e49ac2a33893ab611c8c12ba415deab2de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:50 +0000
Subject: [PATCH 06/58] fix: keep chain shape when reading single column text
 log files

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 16051e0..2053436 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -311,7 +311,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From b1cfaa2233e4fd02036d9a702c130c9ae65cfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 07/58] fix: default N0 from a first run turned on error
 variance updating in the next run

---
 pymcmcstat/settings/ModelSettings.py     | 2 ++
 pymcmcstat/settings/SimulationOptions.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..1699f57 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._default_N0 = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._default_N0 = True  # not specified by user
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..78685b8 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and not getattr(model, '_default_N0', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
-- 
2.43.0


From f7cbdd4571910e3d75f995cec4d50d36bc4775a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 08/58] fix: error variance updates overwrote S20 and the
 user's sigma2 array

---
 pymcmcstat/settings/ModelSettings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 1699f57..f1d99d4 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -183,6 +183,8 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
+        else:
+            x = np.array(x, dtype=float)  # copy - sigma2 is updated in place
         return x
 
     @classmethod
-- 
2.43.0


From 7c0da93bc2707d123442a30bbcd346f516893f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 09/58] fix: sigma2 never defaulted to S20

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index f1d99d4..dce186c 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -108,7 +108,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From 16c039006c3ae95f18519311acebcab6de192e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 10/58] fix: continuing a simulation exited when several data
 sets share one sum-of-squares

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index dce186c..cd22ff6 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -121,7 +121,7 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            if np.all(dsN == udN[0]) or np.sum(dsN) == udN[0]:
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From ddb42fb32e9c64a7df1e310d62a090add086f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:31 +0000
Subject: [PATCH 11/58] fix: log files of a continued simulation lost its
 samples or raised

---
 pymcmcstat/MCMC.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..439b501 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -277,6 +277,12 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # log files must refer to the expanded arrays
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -288,7 +294,8 @@ class MCMC:
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
         savecount = 0  # save counter
-        lastbin = 0  # initialize bin counter
+        # initialize bin counter - only log new elements if continuing simulation
+        lastbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
@@ -375,14 +382,15 @@ class MCMC:
 
             # SAVE TO LOG FILE
             if savecount == self.simulation_options.savesize:
+                start, end = lastbin, self.__chain_index
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=start,
+                        end=end)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=start,
+                        end=end,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -395,17 +403,17 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
+        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
         self.__save_to_log_file(
                 chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
                 start=lastbin,
-                end=isimu,
+                end=self.__chain_index,
                 append_to_log=False,
                 covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=nsimu - savecount - 1, end=nsimu, append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From 0723a3c0c98d7fa429c714b901674ea9e19683c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:09 +0000
Subject: [PATCH 12/58] fix: adaptation counted samples twice when continuing a
 simulation

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..5ae9255 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -74,7 +74,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From 0b2e0e0988e0790d846248a313eba228d80c6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:15 +0000
Subject: [PATCH 13/58] fix: delayed rejection failed after an adaptation
 interval inside burn-in

---
 pymcmcstat/samplers/Adaptation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 5ae9255..95e2013 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,6 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
@@ -86,8 +84,8 @@ class Adaptation:
             R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar,
                                               qcov_adjust=qcov_adjust, qcov_scale=qcov_scale,
                                               rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
-            # update dram covariance matrix
-            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
+        # update dram covariance matrix
+        RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
 
         covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum,
                                                       last_index_since_adaptation, iiadapt)
-- 
2.43.0


From 5e99f814ba243d0c20254c0a847222da355fdf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 14/58] fix: adaptation continued beyond lastadapt

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 439b501..2613833 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -349,7 +349,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
-- 
2.43.0


From ba91a1fe003a676fc97572020816103d29345410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 15/58] fix: requesting several tries with the mh or am methods
 raised

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..87ffda2 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -56,7 +56,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From f90d5b499013876b5281058bd84b9b4c535c85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:19 +0000
Subject: [PATCH 16/58] fix: number of data points passed to add_data_set was
 dropped

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..e4fc9fd 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 930ecb8a428b71b1417101be9d2f520cc456f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 17/58] fix: default sum-of-squares raised when user specified
 nbatch

---
 pymcmcstat/procedures/SumOfSquares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index c949368..f8999b2 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -93,6 +93,7 @@ class SumOfSquares:
             * **ss** (:class:`~numpy.ndarray`): Sum-of-squares error(s)
         '''
         # initialize
+        nbatch = np.asarray(nbatch).item()  # model settings store arrays
         ss = np.zeros(nbatch)
         for ibatch in range(nbatch):
             xdata = data.xdata[ibatch]
-- 
2.43.0


From 429705de5b5f9809b80f0fd3dd92a7c673267cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:33 +0000
Subject: [PATCH 18/58] fix: json restart failed when some parameters are not
 sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 2613833..d56eddb 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # qcovorig includes parameters that are not being sampled
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From 23ad3cdbfc5b15c2d832e9abcff04e58c55e3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 19/58] fix: propagation used the start of the chain instead of
 the sampled points

---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..6e190f0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From 8c26757759c531788188edcf5151ad9493555a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 20/58] fix: calculate_intervals overwrote theta in the results
 dictionary

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6e190f0..ebfbcf3 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])  # copy - do not overwrite user's results
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
-- 
2.43.0


From 0cc82d4011cfe688805359235c11b2d7319ab77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 21/58] fix: plotting prediction intervals raised with current
 numpy (np.int removed)

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..60f2188 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From 41e1e80dc2035c0cdb9f4eeb16c7ff171aca2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:56 +0000
Subject: [PATCH 22/58] fix: generating prediction intervals overwrote theta in
 the results dictionary

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 60f2188..f66c444 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -469,7 +469,7 @@ class PredictionIntervals:
             * **ysave** (:class:`~numpy.ndarray`): Model responses.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)  # copy - do not overwrite user's results
         ysave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
             # progress bar
@@ -507,7 +507,7 @@ class PredictionIntervals:
             * **osave** (:class:`~numpy.ndarray`): Model responses with observation errors.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)  # copy - do not overwrite user's results
         ysave = np.zeros([nsample, nrow, ncol])
         osave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
-- 
2.43.0


From 967a93cd2fa5fe76ed072784da831e43a95aee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 23/58] fix: parallel chains shared the same random number
 stream

---
 pymcmcstat/ParallelMCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c02e620..eb105ac 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -102,7 +102,8 @@ class ParallelMCMC:
             Parallel simulation run time: 16.15234899520874 sec
         '''
         start = time.time()
-        mcpool = Pool(processes=self.num_cores)  # depends on available cores
+        # depends on available cores - reseed each process, otherwise all inherit the same random stream
+        mcpool = Pool(processes=self.num_cores, initializer=np.random.seed)
         res = mcpool.map(run_serial_simulation, self.parmc)
         mcpool.close()  # not optimal! but easy
         mcpool.join()
-- 
2.43.0


From e7180acefde648d1f99267348d4d604c8c1d5322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 24/58] fix: parallel setup replaced the value of parameters
 that are not sampled

---
 pymcmcstat/ParallelMCMC.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index eb105ac..7f712bb 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,10 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        if initial_values is None:  # parameters not being sampled keep their value
+            for jj, par in enumerate(parameters.parameters):
+                if not par['sample']:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 05c3fd2ca210bd0e51ebb388afea970f1c4ff9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 25/58] fix: parallel setup rejected initial values of
 unbounded parameters

---
 pymcmcstat/ParallelMCMC.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 7f712bb..7e9ba48 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,6 +47,9 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
+        if initial_values is not None:  # finite limits only needed for generating values
+            low_lim = np.array([par['minimum'] for par in parameters.parameters])
+            upp_lim = np.array([par['maximum'] for par in parameters.parameters])
         options = check_options_output(options)
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
-- 
2.43.0


From d794db688013c029d991c07b617924fe87c3a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 26/58] fix: displaying the settings raised with mh and am
 (verbosity of 2 or more)

---
 pymcmcstat/procedures/CovarianceProcedures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 87ffda2..fe577b4 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -38,6 +38,7 @@ class CovarianceProcedures:
         self._R = None
         self._qcov_original = None
         self._invR = None
+        self._RDR = None
         self._iacce = None
         self._covchain = None
         self._meanchain = None
-- 
2.43.0


From 9eb9a7e649a3477c3ed6e4db335b4853a87e7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 27/58] fix: continued simulations logged empty segments, which
 raised with savesize of 1

---
 pymcmcstat/MCMC.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index d56eddb..9f7fa76 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -294,9 +294,8 @@ class MCMC:
         '''
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
-        savecount = 0  # save counter
-        # initialize bin counter - only log new elements if continuing simulation
-        lastbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
+        # initialize save and bin counter - only log new elements if continuing simulation
+        savecount, lastbin = (0, 0) if self.__chain_index == 0 else (-1, self.__chain_index + 1)
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
-- 
2.43.0


From d05e77896ee66a3aca81ebac0eb8d2c1ceae14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:33 +0000
Subject: [PATCH 28/58] fix: reading binary logs with segments of increasing
 length

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 2053436..cc87311 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -284,7 +284,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
-- 
2.43.0


From 5b5ec0e8536be7d472f322653f0a74a81018d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:12 +0000
Subject: [PATCH 29/58] fix: plotting intervals reordered the user's list of
 limits

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index ebfbcf3..f656b41 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -635,7 +635,7 @@ def _setup_labels(limits, inttype='CI'):
 def _check_limits(limits, default_limits):
     if limits is None:
         limits = default_limits
-    limits.sort(reverse=True)
+    limits = sorted(limits, reverse=True)
     return limits
 
 
-- 
2.43.0


From 85cd9ec89934f5bdae8a1f7045e3e42e5ccea7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 30/58] fix: plotting intervals without prediction raised by
 default

---
 pymcmcstat/propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index f656b41..017ee02 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -241,7 +241,7 @@ def plot_intervals(intervals, time, ydata=None, xdata=None,
     ax = fig.gca()
     time = time.reshape(time.size,)
     # add prediction intervals
-    if addprediction is True:
+    if addprediction is True and prediction is not None:
         for ii, quantile in enumerate(piset['quantiles']):
             pi = generate_quantiles(prediction, np.array(quantile))
             ax.fill_between(time, pi[0], pi[1], facecolor=piset['colors'][ii],
@@ -387,7 +387,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     time1 = time[:, 0]
     time2 = time[:, 1]
     # add prediction intervals
-    if addprediction is True:
+    if addprediction is True and prediction is not None:
         for ii, quantile in enumerate(piset['quantiles']):
             pi = generate_quantiles(prediction, np.array(quantile))
             # Add a polygon instead of fill_between
-- 
2.43.0


From 1f2bb4862c456e2343affcc4923ce09664918d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:28 +0000
Subject: [PATCH 31/58] fix: interquantile range was not computed from sorted
 columns

---
 pymcmcstat/plotting/utilities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index afabd8b..3040c61 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -167,14 +167,15 @@ def iqrange(x):
         x = x.reshape(nc, nr)
         nr = nc
         nc = 1
-    # sort
-    x.sort()
+    # sort each column
+    x = np.sort(x, axis=0)
     i1 = math.floor((nr + 1)/4)
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
     f3 = 3/4*(nr+1)-i3
-    q1 = (1-f1)*x[int(i1), :] + f1*x[int(i1)+1, :]
-    q3 = (1-f3)*x[int(i3), :] + f3*x[int(i3)+1, :]
+    # i1, i3 are one-based ranks
+    q1 = (1-f1)*x[max(int(i1)-1, 0), :] + f1*x[min(int(i1), nr-1), :]
+    q3 = (1-f3)*x[max(int(i3)-1, 0), :] + f3*x[min(int(i3), nr-1), :]
     return q3-q1
 
 
-- 
2.43.0


From b49a9079d6743e5090edb68b015add6c3aacd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:36 +0000
Subject: [PATCH 32/58] fix: displaying statistics or plots extended the user's
 list of names

---
 pymcmcstat/plotting/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 3040c61..c8d6478 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -117,6 +117,8 @@ def extend_names_to_match_nparam(names, nparam):
     if names is None:
         names = []
     n0 = len(names)
+    if n0 < nparam:
+        names = list(names)  # copy - do not extend the user's list
     for ii in range(n0, nparam):
         names.append(str('$p_{{{}}}$'.format(ii)))
     return names
-- 
2.43.0


From b9b99a8fbee3adfa1f10929c7bc106d10275aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:19 +0000
Subject: [PATCH 33/58] fix: mark parameters excluded from adaptation in the
 parameter table

---
 pymcmcstat/settings/ModelParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelParameters.py b/pymcmcstat/settings/ModelParameters.py
index 20d387f..f29e7d3 100644
--- a/pymcmcstat/settings/ModelParameters.py
+++ b/pymcmcstat/settings/ModelParameters.py
@@ -411,7 +411,7 @@ def noadapt_display_setting(no_adapt):
     Returns:
         * **st** (:py:class:`str`): String to be displayed.
     '''
-    if no_adapt is True:  # THIS PARAMETER IS FIXED
+    if no_adapt:  # THIS PARAMETER IS FIXED
         return str(' (*)')
     else:
         return str('')
-- 
2.43.0


From 652386ed472eb841ed2ad1f913b74626c26ff233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:11 +0000
Subject: [PATCH 34/58] fix: burn-in share counts the rows of the chain, also
 of continued results

---
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index cc87311..cd6d112 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -395,7 +395,7 @@ def generate_combined_chain_with_index(pres, burnin_percentage=50):
     '''
     index = []
     for ii, pr in enumerate(pres):
-        burnin = int(pr['nsimu']*burnin_percentage/100)
+        burnin = int(pr['chain'].shape[0]*burnin_percentage/100)
         if ii == 0:
             combined_chain = pr['chain'][burnin:, :]
         else:
@@ -419,6 +419,6 @@ def generate_chain_list(pres, burnin_percentage=50):
     '''
     chains = []
     for ii in range(len(pres)):
-        burnin = int(pres[ii]['nsimu']*burnin_percentage/100)
+        burnin = int(pres[ii]['chain'].shape[0]*burnin_percentage/100)
         chains.append(pres[ii]['chain'][burnin:, :])
     return chains
-- 
2.43.0


From c0eb899f1df9aa5d6f8f851c7cfb6e7fad27ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:35 +0000
Subject: [PATCH 35/58] fix: progress bar shows the number of finished steps

---
 pymcmcstat/utilities/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/utilities/progressbar.py b/pymcmcstat/utilities/progressbar.py
index 17274ef..752175a 100644
--- a/pymcmcstat/utilities/progressbar.py
+++ b/pymcmcstat/utilities/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(object):
         i = i + 1
 
         if elapsed - self.last > self.animation_interval:
-            self.animate(i + 1, elapsed)
+            self.animate(i, elapsed)
             self.last = elapsed
         elif i == self.iterations:
             self.animate(i, elapsed)
-- 
2.43.0


From 4e7f2464a57758552442cf9e1a18c46446df5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 36/58] fix: parallel setup does not switch on saving in the
 serial options

---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 7e9ba48..354044e 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -50,7 +50,7 @@ class ParallelMCMC:
         if initial_values is not None:  # finite limits only needed for generating values
             low_lim = np.array([par['minimum'] for par in parameters.parameters])
             upp_lim = np.array([par['maximum'] for par in parameters.parameters])
-        options = check_options_output(options)
+        options = check_options_output(copy.deepcopy(options))
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
         # check initial values and number of chains to be generated
-- 
2.43.0


From 88ef57f778cce923ec5ab506d4d0caf365972cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 37/58] fix: errors of type TypeError raised in the
 sum-of-squares function reach the caller

---
 pymcmcstat/procedures/SumOfSquares.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index f8999b2..9509556 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -7,6 +7,7 @@ Created on Wed Jan 17 16:21:48 2018
 """
 
 # Import required packages
+import inspect
 import numpy as np
 import sys
 
@@ -33,6 +34,7 @@ class SumOfSquares:
             sos_style = 1
         self.sos_function = model.sos_function
         self.sos_style = sos_style
+        self.takes_custom = takes_custom(self.sos_function)
         self.model_function = model.model_function
         self.parind = parameters._parind
         self.value = parameters._initial_value
@@ -53,9 +55,9 @@ class SumOfSquares:
         # evaluate sum-of-squares function
         self.value[self.parind] = theta
         if self.sos_style == 1:
-            try:
+            if self.takes_custom:
                 ss = self.sos_function(self.value, self.data, custom=custom)
-            except TypeError:
+            else:
                 ss = self.sos_function(self.value, self.data)
         elif self.sos_style == 4:
             ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
@@ -104,3 +106,24 @@ class SumOfSquares:
             # calculate sum-of-squares error
             ss[ibatch] += sum(weight*(ydata-ymodel)**2)
         return ss
+
+
+# --------------------------------------------------------
+def takes_custom(sos_function):
+    '''
+    Check whether the sum-of-squares function takes the output of custom samplers.
+
+    Errors raised by the function itself must not be mistaken for a function
+    without the `custom` argument, so the signature is checked and not a call.
+
+    Args:
+        * **sos_function** (`func`): Handle for sum-of-squares function
+
+    Returns:
+        * (:py:class:`bool`): Flag indicating whether `custom` can be passed.
+    '''
+    try:
+        inspect.signature(sos_function).bind(None, None, custom=None)
+    except (TypeError, ValueError):
+        return False
+    return True
-- 
2.43.0


From 93d8e033d2587b4de41e23e4a96a317618a362e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:42 +0000
Subject: [PATCH 38/58] fix: a new run starts with the error variance that was
 set

---
 pymcmcstat/MCMC.py                              | 3 +++
 pymcmcstat/procedures/ErrorVarianceEstimator.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 9f7fa76..ddf327e 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -149,6 +149,9 @@ class MCMC:
                         npar=self.parameters.npar,
                         nsos=self.model_settings.nsos,
                         updatesigma=self.simulation_options.updatesigma)
+                if self.simulation_options.updatesigma:
+                    # continue with latest error variance
+                    self.__initial_set.sigma2 = self.__s2chain[self.__chain_index, :].copy()
             else:
                 sys.exit('No previous results found.  Set ''use_previous_results'' to ''False''')
         else:
diff --git a/pymcmcstat/procedures/ErrorVarianceEstimator.py b/pymcmcstat/procedures/ErrorVarianceEstimator.py
index 9a38634..82429ad 100644
--- a/pymcmcstat/procedures/ErrorVarianceEstimator.py
+++ b/pymcmcstat/procedures/ErrorVarianceEstimator.py
@@ -54,7 +54,7 @@ class ErrorVarianceEstimator:
         N0 = model.N0
         S20 = model.S20
         N = model.N
-        sigma2 = model.sigma2  # initializes it as array
+        sigma2 = np.array(model.sigma2, dtype=float)  # initializes it as array
         nsos = len(sos)
 
         for jj in range(0, nsos):
-- 
2.43.0


From c718cd82ca98cfb712162a50381a253122551650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:49 +0000
Subject: [PATCH 39/58] fix: continuing after an interrupted simulation extends
 the previous results

---
 pymcmcstat/MCMC.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index ddf327e..90ac227 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -142,8 +142,13 @@ class MCMC:
         '''
         if use_previous_results is True:
             if self._mcmc_status is True:
-                self.parameters._results_to_params(self.simulation_results.results, 1)
+                results = self.simulation_results.results
+                self.parameters._results_to_params(results, 1)
                 self._initialize_simulation()
+                # an interrupted simulation may have changed chains after the results were stored
+                self.__chain, self.__sschain = results['chain'], results['sschain']
+                self.__s2chain = results['s2chain']
+                self.__chain_index = self.__chain.shape[0] - 1
                 self.__expand_chains(
                         nsimu=self.simulation_options.nsimu,
                         npar=self.parameters.npar,
-- 
2.43.0


From c5cf054ed81c775b011d61e89215313bbd306b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:35 +0000
Subject: [PATCH 40/58] fix: a new run after a continued one starts at the
 initial values

---
 pymcmcstat/MCMC.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 90ac227..a2a775f 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -95,7 +95,13 @@ class MCMC:
             * **use_previous_results** (:py:class:`bool`): Flag to indicate whether simulation is being restarted.
         '''
         start_time = time.time()
-        self.__setup_simulator(use_previous_results=use_previous_results)
+        # starting values taken from results apply to this simulation only
+        user_parameters = self.parameters.parameters
+        self.parameters.parameters = [dict(par) for par in user_parameters]
+        try:
+            self.__setup_simulator(use_previous_results=use_previous_results)
+        finally:
+            self.parameters.parameters = user_parameters
         # ---------------------
         # setup progress bar
         if self.simulation_options.waitbar:
-- 
2.43.0


From e45fd8114fdde520fa0d3721e9868237b2614b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:22 +0000
Subject: [PATCH 41/58] fix: a list of data points is a data set of that many
 observations, not one observation

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index e4fc9fd..d6ae5be 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -112,7 +112,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.array(xy)
         return xy
 
     @classmethod
-- 
2.43.0


From 593ef2aa33c6376ef023150665316c84ab69345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:09 +0000
Subject: [PATCH 42/58] fix: plotting intervals in 3-D raised with current
 matplotlib

---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 017ee02..e5cb95e 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -382,7 +382,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
     if fig is None:
         fig = plt.figure(figsize=figsize)
-        ax = Axes3D(fig)
+        fig.add_subplot(projection='3d')
     ax = fig.gca()
     time1 = time[:, 0]
     time2 = time[:, 1]
@@ -400,8 +400,8 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=piset['colors'][ii],
                                     label=piset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            surf._facecolors2d = surf._facecolor3d
+            surf._edgecolors2d = surf._edgecolor3d
             ax.add_collection3d(surf)
     # add credible intervals
     if addcredible is True:
@@ -417,8 +417,8 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=ciset['colors'][ii],
                                     label=ciset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            surf._facecolors2d = surf._facecolor3d
+            surf._edgecolors2d = surf._edgecolor3d
             ax.add_collection3d(surf)
     # add model (median model response)
     if addmodel is True:
-- 
2.43.0


From 4162ba2b7ec90d2ffac242b74fb59480ca94490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:19 +0000
Subject: [PATCH 43/58] fix: plotting intervals in 3-D required as many
 observations as times

---
 pymcmcstat/propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index e5cb95e..6ab3579 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -427,12 +427,12 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     # add data to plot
     if ydata is not None and adddata is None:
         adddata = True
-    if adddata is True:
+    if adddata is True and ydata is not None:
         if xdata is None:
             ax.plot(time1, time2, ydata.reshape(time1.shape), **data_display)
         else:  # User provided xdata array for observation points
             ax.plot(xdata[:, 0], xdata[:, 1],
-                    ydata.reshape(time1.shape), **data_display)
+                    ydata.reshape(xdata[:, 0].shape), **data_display)
     # add legend
     if addlegend is True:
         handles, labels = ax.get_legend_handles_labels()
-- 
2.43.0


From 1fb128b02eae4ac9ef8e750bcfff62200048980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:48 +0000
Subject: [PATCH 44/58] fix: display settings of intervals were ignored in 3-D
 plots

---
 pymcmcstat/propagation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6ab3579..66d7ea4 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -397,8 +397,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             z = np.concatenate((pi[0], pi[1][rev]))
             verts = [list(zip(x, y, z))]
             surf = Poly3DCollection(verts,
-                                    color=piset['colors'][ii],
-                                    label=piset['labels'][ii])
+                                    facecolor=piset['colors'][ii],
+                                    label=piset['labels'][ii],
+                                    **interval_display)
             # Add fix for legend compatibility
             surf._facecolors2d = surf._facecolor3d
             surf._edgecolors2d = surf._edgecolor3d
@@ -414,8 +415,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             z = np.concatenate((ci[0], ci[1][rev]))
             verts = [list(zip(x, y, z))]
             surf = Poly3DCollection(verts,
-                                    color=ciset['colors'][ii],
-                                    label=ciset['labels'][ii])
+                                    facecolor=ciset['colors'][ii],
+                                    label=ciset['labels'][ii],
+                                    **interval_display)
             # Add fix for legend compatibility
             surf._facecolors2d = surf._facecolor3d
             surf._edgecolors2d = surf._edgecolor3d
-- 
2.43.0


From f83681f3e86cb0bde2bfaf371e91cbf1b61e7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:22 +0000
Subject: [PATCH 45/58] fix: method ram adapted with the logarithm of the
 acceptance ratio

---
 pymcmcstat/samplers/Metropolis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Metropolis.py b/pymcmcstat/samplers/Metropolis.py
index 18abfb8..3565d76 100644
--- a/pymcmcstat/samplers/Metropolis.py
+++ b/pymcmcstat/samplers/Metropolis.py
@@ -83,7 +83,8 @@ class Metropolis:
                     logprior=-0.5*oldprior)
             # make acceptance decision
             accept = log_posterior_ratio_acceptance_test(alpha)
-            # store parameter sets in objects
+            # store parameter sets in objects (alpha as ratio, undefined ratios are rejected)
+            alpha = np.zeros(1) if np.isnan(alpha) else np.exp(alpha)
             newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=alpha)
         return accept, newset, outbound, npar_sample_from_normal
 
-- 
2.43.0


From dbc7b90d096908ba574c6d0506740652567e2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:59 +0000
Subject: [PATCH 46/58] fix: write numpy scalars to results files

---
 pymcmcstat/utilities/NumpyEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/utilities/NumpyEncoder.py b/pymcmcstat/utilities/NumpyEncoder.py
index dac317e..592383b 100644
--- a/pymcmcstat/utilities/NumpyEncoder.py
+++ b/pymcmcstat/utilities/NumpyEncoder.py
@@ -17,4 +17,6 @@ class NumpyEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.generic):  # numpy scalars, e.g., np.int64
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
-- 
2.43.0


From 233139bb94fd7827dfd7ba06a05659a58ac63f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 47/58] fix: keep sum-of-squares functions that modify or reuse
 arrays from changing earlier and later evaluations

---
 pymcmcstat/procedures/SumOfSquares.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index 9509556..aed124d 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -52,21 +52,24 @@ class SumOfSquares:
         Returns:
             * **ss** (:class:`~numpy.ndarray`): Sum-of-squares error(s)
         '''
-        # evaluate sum-of-squares function
+        # evaluate sum-of-squares function - on a copy, as it may modify its arguments
         self.value[self.parind] = theta
+        value = self.value.copy()
         if self.sos_style == 1:
             if self.takes_custom:
-                ss = self.sos_function(self.value, self.data, custom=custom)
+                ss = self.sos_function(value, self.data, custom=custom)
             else:
-                ss = self.sos_function(self.value, self.data)
+                ss = self.sos_function(value, self.data)
         elif self.sos_style == 4:
-            ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
+            ss = self.mcmc_sos_function(value, self.data, self.nbatch, self.model_function)
         else:
-            ss = self.sos_function(self.value, self.data, self.local)
+            ss = self.sos_function(value, self.data, self.local)
 
-        # make sure sos is a numpy array
+        # make sure sos is a numpy array, which later evaluations do not overwrite
         if not isinstance(ss, np.ndarray):
             ss = np.array([ss])
+        else:
+            ss = ss.copy()
         return ss
 
     @classmethod
-- 
2.43.0


From 1fbc13ed8f8c573762e367b4388f0479a8404b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 48/58] fix: keep prior functions that modify their arguments
 from changing the candidate and the prior

---
 pymcmcstat/procedures/PriorFunction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/PriorFunction.py b/pymcmcstat/procedures/PriorFunction.py
index 0ac7fb9..f140b85 100644
--- a/pymcmcstat/procedures/PriorFunction.py
+++ b/pymcmcstat/procedures/PriorFunction.py
@@ -58,4 +58,8 @@ class PriorFunction:
         Args:
             * **theta** (:class:`~numpy.ndarray`): Current parameter values.
         '''
-        return self.priorfun(theta, self.mu, self.sigma)
+        # evaluate on copies, as the function may modify its arguments
+        prior = self.priorfun(np.array(theta), np.array(self.mu), np.array(self.sigma))
+        if isinstance(prior, np.ndarray):
+            prior = prior.copy()
+        return prior
-- 
2.43.0


From e36b09bcea4d3802df62b94974bbb7e29df8c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 49/58] fix: default sum-of-squares of data sets with several
 columns

---
 pymcmcstat/procedures/SumOfSquares.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index aed124d..14a819f 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -105,9 +105,13 @@ class SumOfSquares:
             ydata = data.ydata[ibatch]
             weight = data.weight[ibatch]
             # evaluate model
-            ymodel = model_function(xdata, theta)
+            ymodel = model_function(xdata, np.array(theta))
             # calculate sum-of-squares error
-            ss[ibatch] += sum(weight*(ydata-ymodel)**2)
+            error = weight*(ydata-ymodel)**2
+            if error.shape != ydata.shape:
+                raise ValueError('Model response of shape {} does not match data of shape {}'.format(
+                        np.shape(ymodel), ydata.shape))
+            ss[ibatch] += sum(error).sum()
         return ss
 
 
-- 
2.43.0


From 11a0b56f86c60bc4b1985d41a6472635e1793562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 50/58] fix: accept N0 without sigma2 when there are more data
 sets than sum-of-squares elements

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index cd22ff6..2f597f6 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -111,7 +111,7 @@ class ModelSettings:
             if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
-                self.sigma2 = np.ones(self.nbatch)
+                self.sigma2 = np.ones([1])
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
 
-- 
2.43.0


From f805ea2da4bf3f86057851058051d0f9ea3cf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:40 +0000
Subject: [PATCH 51/58] fix: label chain metrics with the default name instead
 of a list

---
 pymcmcstat/plotting/MCMCPlotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/MCMCPlotting.py b/pymcmcstat/plotting/MCMCPlotting.py
index 87d86b9..e2d4d2d 100644
--- a/pymcmcstat/plotting/MCMCPlotting.py
+++ b/pymcmcstat/plotting/MCMCPlotting.py
@@ -205,7 +205,8 @@ def plot_chain_metrics(chain, name=None, figsizeinches=None):
         * **names** (:py:class:`str`): Name of each parameter
         * **figsizeinches** (:py:class:`list`): Specify figure size in inches [Width, Height]
     '''
-    name = generate_names(nparam=1, names=name)
+    if name is None:
+        name = generate_names(nparam=1, names=name)[0]
     if figsizeinches is None:
         figsizeinches = [7, 5]
     f = plt.figure(dpi=100, figsize=(figsizeinches))  # initialize figure
-- 
2.43.0


From 5327865a03bb51db0587194e124a87fdcc75e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:40 +0000
Subject: [PATCH 52/58] fix: keep models that modify their arguments from
 changing unsampled parameters in propagation

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 66d7ea4..8fbcede 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -67,7 +67,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         # extract chain set
         q[parind] = chain[isa, :]
         # evaluate model
-        y = model(q, data)
+        y = model(q.copy(), data)  # the model may modify its arguments
         # check model output
         if y.ndim == 2:
             nrow, ncol = y.shape
-- 
2.43.0


From e72da8296ed71dd1f2ff439e99a6d7aa78dba536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:40 +0000
Subject: [PATCH 53/58] fix: keep models that modify their arguments from
 changing the results

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index f66c444..2a99576 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -140,9 +140,9 @@ class PredictionIntervals:
         ncol = []
         for ii in range(ndatabatches):
             if isinstance(modelfunction, list):
-                y = modelfunction[ii](datapred[ii], theta)
+                y = modelfunction[ii](datapred[ii], np.array(theta))
             else:
-                y = modelfunction(datapred[ii], theta)
+                y = modelfunction(datapred[ii], np.array(theta))
             sh = y.shape
             nrow, ncol = append_to_nrow_ncol_based_on_shape(sh, nrow, ncol)
         return nrow, ncol
-- 
2.43.0


From 58a4b8d43908406b16868eb06a114d0089bd0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:30 +0000
Subject: [PATCH 54/58] fix: accept sums-of-squares returned as lists or arrays
 without dimension

---
 pymcmcstat/procedures/SumOfSquares.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index 14a819f..b230863 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -66,11 +66,7 @@ class SumOfSquares:
             ss = self.sos_function(value, self.data, self.local)
 
         # make sure sos is a numpy array, which later evaluations do not overwrite
-        if not isinstance(ss, np.ndarray):
-            ss = np.array([ss])
-        else:
-            ss = ss.copy()
-        return ss
+        return np.array(ss, ndmin=1)
 
     @classmethod
     def mcmc_sos_function(cls, theta, data, nbatch, model_function):
-- 
2.43.0


From 9b76e67c02e6485599808618706f1151599203b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:57 +0000
Subject: [PATCH 55/58] fix: keep the proposal covariance in the results from
 being truncated when qcov is given as integers

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index fe577b4..3b50ee5 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -134,7 +134,7 @@ class CovarianceProcedures:
             qcov[qcov == 0] = 1.0  # if initial value was zero, use 1 as stdev
             qcov = np.diagflat(qcov)  # create covariance matrix
 
-        self._qcov = np.atleast_2d(qcov[:])
+        self._qcov = np.atleast_2d(np.array(qcov, dtype=float))
         self._qcov_original = self._qcov.copy()
 
     def __check_adascale(self, adascale, npar):
-- 
2.43.0


From 7ec80b063805711cc4e3dacbc99f057fcdb7a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:11 +0000
Subject: [PATCH 56/58] fix: accept delayed rejection scales given as an array
 of integers

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 pymcmcstat/samplers/Adaptation.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 3b50ee5..93bdb2c 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -175,7 +175,7 @@ class CovarianceProcedures:
             RDR.append(self._R)
             self._invR.append(np.linalg.solve(self._R, np.eye(npar)))
             for ii in range(1, ntry):
-                RDR.append(RDR[ii-1]*(drscale[min(ii, len(drscale))-1]**(-1)))
+                RDR.append(RDR[ii-1]*(drscale[min(ii, len(drscale))-1]**(-1.0)))
                 self._invR.append(np.linalg.solve(RDR[ii], np.eye(npar)))
         else:  # DR strategy: just scale R's down by DR_scale
             for ii in range(ntry):
diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 95e2013..825d74f 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -492,6 +492,6 @@ def update_delayed_rejection(R, npar, ntry, drscale):
         RDR.append(R)
         invR.append(np.linalg.solve(RDR[0], np.eye(npar)))
         for ii in range(1, ntry):
-            RDR.append(RDR[ii-1]*((drscale[min(ii, len(drscale)) - 1])**(-1)))
+            RDR.append(RDR[ii-1]*((drscale[min(ii, len(drscale)) - 1])**(-1.0)))
             invR.append(invR[ii-1]*(drscale[min(ii, len(drscale)) - 1]))
     return RDR, invR
-- 
2.43.0


From fb9e1e96162e04e50317cfce4baf42354966d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 57/58] fix: adapt with the acceptance ratio of the first try
 when ram is used with delayed rejection

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index a2a775f..2f74e4d 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -335,6 +335,7 @@ class MCMC:
                     prior_object=self.__prior_object,
                     sos_object=self.__sos_object,
                     custom=self.custom_sampler_output)
+            alpha = new_set.alpha  # acceptance ratio of the first try (npar_sample_from_normal belongs to it)
 
             # DELAYED REJECTION
             if self.simulation_options.ntry > 1 and accept == 0:
@@ -375,7 +376,7 @@ class MCMC:
                         chainind=self.__chain_index,
                         u=npar_sample_from_normal,
                         npar=self.parameters.npar,
-                        alpha=new_set.alpha)
+                        alpha=alpha)
 
                 iiadapt = 0  # reset local adaptation index
                 self.__rejected['in_adaptation_interval'] = 0  # reset local rejection index
-- 
2.43.0


From 64a0869fdcb23238d8f45ac827edb8e571a48e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:45 +0000
Subject: [PATCH 58/58] fix: reject undefined proposals instead of evaluating
 them as within the limits

---
 pymcmcstat/samplers/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/utilities.py b/pymcmcstat/samplers/utilities.py
index 45fd0aa..ed6f022 100644
--- a/pymcmcstat/samplers/utilities.py
+++ b/pymcmcstat/samplers/utilities.py
@@ -45,7 +45,7 @@ def is_sample_outside_bounds(theta, lower_limits, upper_limits):
     Returns:
         * **outsidebounds** (:py:class:`bool`): True -> Outside of parameter limits
     '''
-    if (theta < lower_limits).any() or (theta > upper_limits).any():
+    if not ((theta >= lower_limits) & (theta <= upper_limits)).all():  # also for undefined values
         outsidebounds = True
     else:
         outsidebounds = False
-- 
2.43.0

