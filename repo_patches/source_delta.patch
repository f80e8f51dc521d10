From 43879bbacab2de54da73003767547cc5c5d82f33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 001/103] fix: check the requested temperature against the
 temperatures in the ACE file

AceEditor looked the requested string up in the list of its own characters,
so asking for any temperature always raised.
---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..456573d 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in list(temperatures):
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From f40b63acc6a78860922316b8a3cef0909e7eddaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 002/103] fix: iterate samples with DataFrame.items()

iteritems() no longer exists in pandas 2, so writing sampled data always failed.
---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From 6eae94af44cb1f505ba3d9ce6d9d461e6bce590a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 003/103] fix: import os and argparse at module level in
 XsecSampler

get_mt_from_ace, the plot functions and create_argparser use them and raised
NameError whenever the module was imported instead of run as a script.
---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..a49f6cf 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,3 +1,6 @@
+import argparse
+import os
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -827,9 +830,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From 03aff47070072ef18088f39ba3fcb2e1666d1d01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 004/103] fix: apply the pivoting permutation of gmw_cholesky
 when sampling

(P L)(P L)^T reproduces the matrix; using L alone attached the correlations of
an indefinite matrix to the wrong variables.
---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..5690666 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -364,7 +364,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -373,7 +373,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From d411956227d1492d3193b8dc63bd836b21431e5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 005/103] fix: do not sample variables without correlation data
 when nothing else is excluded

A zero on the correlation diagonal was only honoured if a zero standard deviation
or zero mean had already excluded some variable.
---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5690666..d0de9c0 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = set_zero_corr_to_zero
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From 6e17f058d6e5ecae7ce6dae4f57066944933d62f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 006/103] fix: uniform sampling keeps the requested mean and
 standard deviation

The mean and standard deviation were passed to scipy as lower bound and width, so
samples covered [mean, mean + std]: biased by std/2 with a std of std/sqrt(12).
---
 ASAPy/CovManipulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index d0de9c0..03bd605 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -398,6 +398,9 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         distro_to_sample_from = sci_norm
 
     elif distro == 'uniform':
+        # scipy's uniform spans [loc, loc + scale], pick these so that the mean and std_dev are the desired ones
+        mean_values = mean_values - 3 ** 0.5 * std_dev
+        std_dev = 2 * 3 ** 0.5 * std_dev
         distro_to_sample_from = uniform
 
     else:
-- 
2.43.0


From b970eaf435a09a89682ca8b836e749b78d47df80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 007/103] fix: zero pointwise cross sections stay zero in
 sampled ACE files

Every zero (a threshold point, a closed channel) was replaced by 1 barn before
the relative sample was applied, so sampled files got ~1 b where the base has 0.
---
 ASAPy/XsecSampler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index a49f6cf..50299a4 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -757,9 +757,6 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
-
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
             ae.set_sigma(mt, sampled_xsec)
-- 
2.43.0


From cd8006b60d270a4443c517e55af1954c8627448f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 008/103] fix: keep relative samples of zero-mean groups finite

A nonzero sample of a zero-mean group divided by the mean is inf, not NaN, and
went into the relative samples (and from there into ACE files) unchanged.
---
 ASAPy/XsecSampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 50299a4..8fbb38d 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -383,9 +383,10 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
-    # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    # if a NaN (0 / 0) or inf (sample / 0) is found at this point, it's because the sample_df (rel) calc divided by
+    # 0 mean, set the rel dev to the value sampled.
+    not_finite = ~np.isfinite(sample_df)
+    sample_df[not_finite] = sample_df_full_vals[not_finite]
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From 4d991ccbe644dad977433ec3d3c2f5875e22022e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 009/103] fix: write the samples all reactions have when
 negative samples were removed

Reactions can lose a different number of samples; the loop ran over the first
reaction's samples and died with a KeyError when another had fewer.
---
 ASAPy/XsecSampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 8fbb38d..584331a 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -736,7 +736,8 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].items():
+    # mts may have a different number of samples left if negative samples were removed, write the ones all mts have
+    for sample_number in range(min(df.shape[1] for df in sample_dfs_rel)):
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From ef2578f0d8ef8e0cc9e8e6841752ef629665c23b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 010/103] fix: do not close the caller's file after reading one
 ENDF material

get_evaluations reads material after material from one open file and always
failed on the closed file.
---
 ASAPy/endf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 042051a..ca09ad6 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -366,7 +366,9 @@ class Evaluation(object):
 
         self._read_header()
 
-        fh.close()
+        # leave files opened by the caller open, there may be more materials to read
+        if fh is not filename_or_obj:
+            fh.close()
 
     def _read_header(self):
         file_obj = io.StringIO(self.section[1, 451])
-- 
2.43.0


From afbd27ceffc8af6c1129271fb02ac1a1c6aad20d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 011/103] fix: put every element of an INTG line in its own
 column

All elements of a line were written to the first column, so only the last one
of each line survived.
---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From d7d92ec1995ea5897d3f60e313ea3f4f640b0544 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 012/103] fix: evaluate tabulated functions at integer arrays
 without truncation

The output array took the dtype of the input, so integer abscissae gave values
truncated to integers while the same scalars did not.
---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..0e641dd 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -155,7 +155,7 @@ class Tabulated1D(Function1D):
         # Check if input is array or scalar
         if isinstance(x, Iterable):
             iterable = True
-            x = np.array(x)
+            x = np.array(x, dtype=float)
         else:
             iterable = False
             x = np.array([x], dtype=float)
-- 
2.43.0


From dcfc8e0c13b5d1119278a79d05aed8977f9b6916 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 013/103] fix: integrals of tabulated functions

The linear-log integral missed the interval width, log-linear with constant y and
log-log with y ~ 1/x gave NaN, and so did discontinuities (repeated x).
---
 ASAPy/data/function.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 0e641dd..63e01b1 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -287,26 +287,31 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 2:
                 # Linear-linear
-                m = (y1 - y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = (y0 - m*x0)*(x1 - x0) + \
-                                            m*(x1**2 - x0**2)/2
+                partial_sum[i_low:i_high] = (y0 + y1)/2*(x1 - x0)
 
             elif self.interpolation[k] == 3:
                 # Linear-log
                 logx = np.log(x1/x0)
-                m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                # a discontinuity (x1 == x0) does not contribute
+                m = np.divide(y1 - y0, logx, out=np.zeros_like(logx),
+                              where=(logx != 0))
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + \
+                                            m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                t = np.log(y1/y0)
+                # (exp(t) - 1)/t is 1 in the limit of constant y (t == 0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0)*np.divide(
+                    np.expm1(t), t, out=np.ones_like(t), where=(t != 0))
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                logx = np.log(x1/x0)
+                t = np.log(y1/y0) + logx
+                # (exp(t) - 1)/t is 1 in the limit of y = c/x (t == 0)
+                partial_sum[i_low:i_high] = y0*x0*logx*np.divide(
+                    np.expm1(t), t, out=np.ones_like(t), where=(t != 0))
 
             i_low = i_high
 
-- 
2.43.0


From 689e90a81aa328ac5319a2dddc8095aa5d313e55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:18 +0000
Subject: [PATCH 014/103] fix: read HDF5 datasets with [()]

Dataset.value was removed in h5py 3 (and np.bool in numpy 1.24), so nothing
written to HDF5 could be read back.
---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 63e01b1..d8b703a 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -353,8 +353,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[()][0, :]
+        y = dataset[()][1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -438,7 +438,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..ef64008 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..7141212 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[()][0, :]
+        factors = dataset[()][1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From a5ea6244a842ee98804d105e4420096bf7c54181 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:05 +0000
Subject: [PATCH 015/103] fix: load stored reactions without any correlation
 data

With a zero correlation diagonal loading divided 0 by 0 and the eigenvalue repair
was given an empty matrix and raised.
---
 ASAPy/XsecSampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 584331a..088f218 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -84,7 +84,10 @@ class XsecSampler:
         # ensure diagonals and matrix normalized to 1.0 + have 1.0 on the diag
         if fill_corr_diag:
             np.fill_diagonal(corr_df.values, max(np.diag(corr_df.values)))  # boxer format used 1000 as 1.0 for correlations
-        corr_df = corr_df / max(np.diag(corr_df.values))
+        # all zeros on the diag means there is no correlation data, keep it as is
+        max_diag = max(np.diag(corr_df.values))
+        if max_diag > 0:
+            corr_df = corr_df / max_diag
 
 
         # make sure e low and e high are in the correct order
@@ -224,6 +227,9 @@ class XsecSampler:
         diag_non_zero = np.diag(corr_matrix) > 0
         corr_matrix_copy = corr_matrix[diag_non_zero, :][:, diag_non_zero]
 
+        if not diag_non_zero.any():
+            return corr_matrix_copy, diag_non_zero
+
         eigs, P = LA.eigh(corr_matrix_copy)
         if min(eigs) <= 1e-8:
             # replace all negative and zero eigs with a small eps
-- 
2.43.0


From 2569eb60a04f5243bcc3eb05ec33b41849d2d298 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 016/103] fix: map an energy equal to the lowest group bound to
 the lowest group

It was looked up as group number G+1 and raised KeyError.
---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 088f218..1d8ad7c 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -303,6 +303,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
 
     # map to actual group number
     group_nums = 1 + num_groups - bins
+    # an energy equal to min_e is in the lowest energy bin
+    group_nums[group_nums > num_groups] = num_groups
     # for now replace the too low and too high bins with nearest good bin. Later they will be overwritten to user value
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
-- 
2.43.0


From 905c0fcfdcf59332ca075c3498126190a30facc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 017/103] fix: keep groups with zero mean in relative samples

Relative samples of these groups were NaN or inf, and with negative samples removed
the groups were dropped from the result.
---
 ASAPy/XsecSampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 1d8ad7c..5a53395 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -197,7 +197,8 @@ class XsecSampler:
         """
         Creates relative sample df keeping the group structure, removing negative samples (if desired)
         """
-        sample_df = samples / mean
+        # a value relative to a zero mean is not defined, keep the sampled value itself
+        sample_df = samples / np.where(mean == 0, 1, mean)
         sample_df = pd.DataFrame(sample_df.T, index=range(1, len(mean) + 1))
 
         if remove_neg:
-- 
2.43.0


From b51f89e18ba9284efbe06e4140d83d2941f48757 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 018/103] fix: skip failed decompressions of reactions without
 a name

The message for a file with a BOXER error looked up a reaction name and raised
KeyError for reactions without one (e.g. the lumped MT 851-870).
---
 ASAPy/EndfToCov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index dfbef89..d56032e 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -350,11 +350,13 @@ def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_gr
 def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}_matrix.txt',
                       output_h5_format='u235_102_{0}g_cov.h5'):
 
+    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
+
     try:
         rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
         group_bounds, xsec, std_dev, cov = rbo.get_block_data()
     except RuntimeError as e:
-        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}")
+        print(f"Skipping zaid/mt {zaid}/{mt} {rxn} in due to boxer output errors: {e}")
         return
 
     groups = cov.shape[0]
@@ -362,7 +364,6 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
 
     # covert the cov read to corr
     corr = CovManipulation.cov_to_correlation(cov)
-    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
     if np.any(np.abs(corr) > 1):
         print(f"Cov matrix for zaid/mt={zaid}/{mt} {rxn} nis ill-composed. When converting to correlation matrix, |values| greater than 1.0 were found, setting these to -1/1 as needed")
 
-- 
2.43.0


From f856e1e3622f98a8f8c1148e771638e526d8f84a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:35 +0000
Subject: [PATCH 019/103] fix: give the nu-bar/chi groupr run the user flux

With iwt_fluxweight=1 groupr expects the weight function after the group bounds, but
for nu-bar and chi it was left out (and would have been put behind the slash that
ends the bounds).
---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..67fbed9 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # no trailing newline needed since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -572,7 +572,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = nbroadr  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 4540e4575b03ccf3cb369068f1f941ea0748bbff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:59 +0000
Subject: [PATCH 020/103] fix: purr and acer read the PENDF tape when
 covariances are made as well

They read the last tape written, which is covariance output or a plot after errorr.
Without broadr, heatr and errorr failed because the tape number was not set.
---
 ASAPy/njoy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 67fbed9..566b492 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -508,6 +508,12 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         nbroadr = nlast + 1
         commands += _TEMPLATE_BROADR
         nlast = nbroadr
+    else:
+        # nothing is broadened, what follows works on the tape from reconr
+        nbroadr = npendf
+
+    # the tape with the latest PENDF, covariance modules below do not write PENDF tapes
+    nlast_pendf = nlast
 
     if errorr:
         if cov_energy_groups is None:
@@ -633,23 +639,25 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
         nlast = nheatr
+        nlast_pendf = nheatr
 
     # purr
     if purr:
-        npurr_in = nlast
-        npurr = npurr_in + 1
+        npurr_in = nlast_pendf
+        npurr = nlast + 1
         commands += _TEMPLATE_PURR
         nlast = npurr
+        nlast_pendf = npurr
 
     commands = commands.format(**locals())
 
     # acer
     if acer:
-        nacer_in = nlast
+        nacer_in = nlast_pendf
         fname = '{}_{:.1f}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
-            nace = nacer_in + 1 + 2*i
+            nace = nlast + 1 + 2*i
             ndir = nace + 1
             ext = '{:02}'.format(i + 1)
             commands += _TEMPLATE_ACER.format(**locals())
-- 
2.43.0


From 31981a79131275e1ea6804ad7756098d03c32ee9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:59 +0000
Subject: [PATCH 021/103] fix: make_njoy_run(run=True) and make_pendf run NJOY

The option run hid the function of that name, so asking to run NJOY raised TypeError,
and the ACE files of the temperatures were not collected into the requested file.
make_pendf asked for covariances, which it gives no group structure for.
---
 ASAPy/njoy.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 566b492..f7f3d10 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -393,6 +393,10 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an option called run
+_run_njoy = run
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -415,7 +419,7 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, run=True, stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
@@ -667,7 +671,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
@@ -685,6 +689,15 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE and xsdir files
+                    ace_file.write(text)
+                    xsdir_file.write(open(fname.format(xsdir, temperature), 'r').read())
+
+            # Remove ACE/xsdir files for each temperature
+            for temperature in temperatures:
+                os.remove(fname.format(ace, temperature))
+                os.remove(fname.format(xsdir, temperature))
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From 2f5dde0f6ea3ff9e96f5248981d79782a602b281 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 022/103] fix: read selected tables of an ASCII ACE library

A text file cannot be repositioned relative to the current position, so
asking for particular tables (or reading a table of at most four values that
is followed by another one) raised io.UnsupportedOperation. Count lines
instead of bytes.
---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..f4d2b34 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # read the remaining lines of the XSS array
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From c8299e9e53a33f152d77a1c16b6329f4b196f228 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 023/103] fix: convert ACE values without exponent letter to
 binary

NJOY prints values below 1e-99 as 1.00000000000-120; ascii_to_binary stopped
with a ValueError on them while the reader accepts them.
---
 ASAPy/data/ace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index f4d2b34..c40f93b 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -153,8 +153,10 @@ def ascii_to_binary(ascii_file, binary_file):
         # Read/write XSS array. Null bytes are added to form a complete record
         # at the end of the file
         n_lines = (nxs[0] + 3)//4
-        xss = list(map(float, ' '.join(lines[
-            idx + 12:idx + 12 + n_lines]).split()))
+        datastr = ' '.join(lines[idx + 12:idx + 12 + n_lines])
+        # Values less than 1e-100 are written without the 'e'
+        datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
+        xss = list(map(float, datastr.split()))
         extra_bytes = record_length - ((len(xss)*8 - 1) % record_length + 1)
         binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)),
                                  *xss))
-- 
2.43.0


From c25401b41156db589cb0854a6ed5b07eead1d3c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 024/103] fix: keep the exponent of a letterless last value of
 an ACE table

When only the last value of XSS is printed without 'e' (1.0-120) the array had
the right size, so the mantissa alone was taken as the value.
---
 ASAPy/data/ace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index c40f93b..3a9c432 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -414,7 +414,10 @@ class Library(EqualityMixin):
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
             # after it). If it's too short, then we apply the ENDF float regular
             # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # If it is the very last number, the size is right but the exponent
+            # is lost, so the last line is always checked.
+            if (xss.size != nxs[1] + 1 or
+                    ENDF_FLOAT_RE.search(lines[11 + n_lines])):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From 8c22eb2e218c154048f53d39080fc22c9e59e03a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:49 +0000
Subject: [PATCH 025/103] fix: read photon production of MT=3 when there is no
 absorption

An ACE table with photon production given for MT=3 whose absorption cross
section is zero everywhere raised UnboundLocalError.
---
 ASAPy/data/neutron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ef64008..9c388b8 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -669,7 +669,8 @@ class IncidentNeutron(EqualityMixin):
                     # ASAPy: instead of summing all the bits, just use the known ACE file absorption xsec
                     # which is mt=3 from the ace file. This is used because the sum causes round-off error making
                     # the lazy ASAPy ace replace not work on mt=3
-                    data.reactions[101] = absorption
+                    if np.count_nonzero(absorption_xs) > 0:
+                        data.reactions[101] = absorption
                 else:
                     data.reactions[mt] = rx
 
-- 
2.43.0


From 2c6223b20929d2682b3ed42349bea2383e87bcb5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:00 +0000
Subject: [PATCH 026/103] fix: update sums whose child sum is not in the ACE
 file

Editing a level without MT=4, MT=103-107 without levels or a partial fission
without MT=18 left MT=1, 101 or 27 unchanged, contrary to what the docstring
asks for. Each sum now lists its direct constituents; one that is a sum itself
but is not present is replaced by its own constituents.
---
 ASAPy/AceIO.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 456573d..2e91e2b 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -328,18 +328,17 @@ class AceEditor:
         """
 
         # the sum rules
-        # potential for round-off error but each mt is summed individually so order does not matter.
-        # if a sum mt does not exist, nothing happens
+        # each sum is made of the sums below it, so the order matters: a sum comes after all the sums it contains.
+        # if a sum mt does not exist, it is not set but its constituents still count in the sums above it
 
         mt_103 = list(range(600, 650))
         mt_104 = list(range(650, 700))
         mt_105 = list(range(700, 750))
         mt_106 = list(range(750, 800))
         mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
-                  182, 191, 192, 193, 197]
+        mt_101 = [*list(range(102, 110)), 111, 112, 113, 114, 115, 116, 117, 155, 182, 191, 192, 193, 197]
         mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
+        mt_27 = [18, 101]  # has 18 and 101 which are sums themselves
 
         mt_16 = list(range(875, 892))
         mt_4 = list(range(50, 92))
@@ -350,17 +349,29 @@ class AceEditor:
         mt_3 = [4, 5, 11, 16, 17, 18, *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)),
                 *list(range(102, 118))]
 
-        mt_1 = [2, *mt_3]  # contains 3 which is a sum
+        mt_1 = [2, 3]  # contains 3 which is a sum
 
         # go from highest to lowest since lower ENDF #'s are not in higher #'s, except 18 which is in 27 so do 18 first
         sum_mts_list = [mt_107, mt_106, mt_105, mt_104, mt_103, mt_101, mt_18, mt_27, mt_16, mt_4, mt_3, mt_1]
         sum_mts = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]
 
+        sum_rules = dict(zip(sum_mts, sum_mts_list))
+
+        def expand_absent_sums(mts_in_sum):
+            # a sum that is not present is replaced by what it is made of
+            expanded = []
+            for mt in mts_in_sum:
+                if mt in sum_rules and mt not in self.all_mts:
+                    expanded += expand_absent_sums(sum_rules[mt])
+                else:
+                    expanded.append(mt)
+            return expanded
+
         for sum_mt, mts_in_sum in zip(sum_mts, sum_mts_list):
             # ensure the sum'd mt is present before trying to set it
             if sum_mt in self.all_mts:
                 # find out which MTs within the sum MTs are present
-                sum_mts_present = self._check_if_mts_present(mts_in_sum)
+                sum_mts_present = self._check_if_mts_present(expand_absent_sums(mts_in_sum))
                 if sum_mts_present:
                         # check if MT was adjusted before re-summing
                         mt_adjusted_check = self._check_if_mts_present(self.adjusted_mts, compare_to=sum_mts_present)
-- 
2.43.0


From 261969c7358c67de496430939f48e679aaceaeec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:39 +0000
Subject: [PATCH 027/103] fix: keep edited ACE data independent of the caller's
 arrays

set_sigma stored the array handed in, and get_sigma returned the internal
arrays of nu-bar and chi (of the unadjusted table too), so changing them later
silently changed the data.
---
 ASAPy/AceIO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 2e91e2b..99fd271 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -237,7 +237,7 @@ class AceEditor:
         nu_values : list-like
             nu values to set
         """
-        self.table.reactions[18].derived_products[0].yield_.y = nu_values
+        self.table.reactions[18].derived_products[0].yield_.y = np.array(nu_values)
 
 
     def get_sigma(self, mt, at_energies=None, unadjusted=False):
@@ -260,9 +260,9 @@ class AceEditor:
 
         # handle nu differently than other xsec
         if mt == 452:
-            _, sigma = self.get_nu_distro(unadjusted=unadjusted)
+            _, sigma = copy.deepcopy(self.get_nu_distro(unadjusted=unadjusted))
         elif mt == 1018:
-            _, _, sigma, _ = self.get_chi_distro(unadjusted=unadjusted)
+            _, _, sigma, _ = copy.deepcopy(self.get_chi_distro(unadjusted=unadjusted))
         else:
             try:
                 if unadjusted:
@@ -305,7 +305,7 @@ class AceEditor:
         elif mt == 1018:
             self.set_chi_distro(values_to_set)
         else:
-            self.table.reactions[mt].xs[self.temperature].y = values_to_set
+            self.table.reactions[mt].xs[self.temperature].y = np.array(values_to_set)
 
         self.adjusted_mts.add(mt)
 
-- 
2.43.0


From ae767133d103cb0514d3f730aa7e9a14e32599e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 028/103] fix: check the length of every fission spectrum
 before setting any

Only the first table was checked: a wrong length in a later one raised after
the tables before it had been changed, and a single value was spread over all
bins.
---
 ASAPy/AceIO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 99fd271..852eec9 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -164,9 +164,10 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            for idx, distro in enumerate(fission_chi_prompt.energy_out):
+                if len(distro) != len(pdf[idx]):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(pdf[idx]), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From a0c65ec22b83d757424a8c636c32c0929388c633 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:02 +0000
Subject: [PATCH 029/103] fix: replace whole numbers only when rewriting an ACE
 file

The textual search also matched inside another number: replacing an array that
starts with 1.0 changed an earlier -1.0 instead.
---
 ASAPy/AceIO.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 852eec9..3d28732 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -487,18 +487,24 @@ class WriteAce:
         if len(array) != len(replace_with):
             raise Exception("Arrays must be equal length for replacement.")
 
-        original_str_line = self.format_mcnp(array)
+        def separate(line):
+            # give each number its own leading and trailing space so only whole numbers match, e.g. 1.0 is not in -1.0
+            return ' ' + line.strip().replace(' ', '  ') + ' '
+
+        single_line = separate(self.single_line)
+        original_str_line = separate(self.format_mcnp(array))
 
         try:
-            first_idx_of_data = self.single_line.index(original_str_line)
+            first_idx_of_data = single_line.index(original_str_line)
         except ValueError:
             raise ValueError("Inputted string not found in the ace file.")
 
         last_idx_of_data = first_idx_of_data + len(original_str_line)
 
-        replace_with_line = self.format_mcnp(replace_with)
-        self.single_line = self.single_line.replace(self.single_line[first_idx_of_data: last_idx_of_data],
-                                                    replace_with_line, max_replaces)
+        replace_with_line = separate(self.format_mcnp(replace_with))
+        single_line = single_line.replace(single_line[first_idx_of_data: last_idx_of_data],
+                                          replace_with_line, max_replaces)
+        self.single_line = single_line.replace('  ', ' ')
 
     def write_ace(self, ace_path_to_write):
 
-- 
2.43.0


From c019e0180c25339cf60e0dad8182936e69326928 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:24 +0000
Subject: [PATCH 030/103] fix: sample only the reactions stored for the ACE
 file's nuclide

---
 ASAPy/XsecSampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 5a53395..05e0804 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -905,7 +905,9 @@ if __name__ == "__main__":
         else:
             # read cov store keys for mts (/ZAID/MT/ZAID/MT)
             with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
-                mts = {int(i.split('/')[2]) for i in h}
+                # only this nuclide's own covariances, the store may hold other nuclides and cross-reaction covariances
+                keys = [i.split('/')[1:5] for i in h]
+                mts = {int(mt_1) for zaid_1, mt_1, zaid_2, mt_2 in keys if zaid_1 == zaid_2 == zaid and mt_1 == mt_2}
                 mts = sorted(list(mts))
 
         # remove mt's not in the ACE file and print to the user (todo: log)
-- 
2.43.0


From 01eb2913ed4ba3e25d5bf35f81e66d948c7815c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:17 +0000
Subject: [PATCH 031/103] fix: evaluate piecewise functions at integer points
 without truncation

---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index d8b703a..1ff636f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -568,7 +568,7 @@ class Regions1D(EqualityMixin):
     def __call__(self, x):
         i = np.searchsorted(self.breakpoints, x)
         if isinstance(x, Iterable):
-            ans = np.empty_like(x)
+            ans = np.empty_like(x, dtype=float)
             for j in range(len(i)):
                 ans[j] = self.functions[i[j]](x[j])
             return ans
-- 
2.43.0


From ba62cbd1c081388bcf769b9329c641cf7ec43a6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:40 +0000
Subject: [PATCH 032/103] fix: refuse nuclide names with anything after a valid
 GND name

---
 ASAPy/data/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/data.py b/ASAPy/data/data.py
index 90d5903..26f0676 100644
--- a/ASAPy/data/data.py
+++ b/ASAPy/data/data.py
@@ -355,7 +355,7 @@ def zam(name):
 
     """
     try:
-        symbol, A, state = _GND_NAME_RE.match(name).groups()
+        symbol, A, state = _GND_NAME_RE.fullmatch(name).groups()
     except AttributeError:
         raise ValueError("'{}' does not appear to be a nuclide name in GND "
                          "format.".format(name))
-- 
2.43.0


From 8f92f0e613ae94a63ca9a3b104200a617e5a664a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:18 +0000
Subject: [PATCH 033/103] fix: neutron data read from HDF5 can be exported
 again (sums formed by the reader have no table)

---
 ASAPy/data/neutron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 9c388b8..884d433 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -454,6 +454,11 @@ class IncidentNeutron(EqualityMixin):
                 if not (photon_rx or transmutation_rx or rx.mt == 4):
                     continue
 
+                # Sums formed when reading HDF5 data are formed again by the
+                # next reader
+                if any(isinstance(xs, Sum) for xs in rx.xs.values()):
+                    continue
+
             rx_group = rxs_group.create_group('reaction_{:03}'.format(rx.mt))
             rx.to_hdf5(rx_group)
 
-- 
2.43.0


From c0028cfa968f007dd6d3d57779fd754465b6afd3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:04 +0000
Subject: [PATCH 034/103] fix: absorption and total of HDF5 data include
 fission given as partial reactions

---
 ASAPy/data/neutron.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 884d433..061f0d9 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -546,8 +546,10 @@ class IncidentNeutron(EqualityMixin):
                     rx.derived_products.append(Product.from_hdf5(tgroup))
 
         # Build redundant reactions. Start from the highest MT number because
-        # high MTs never depend on lower MTs.
-        for mt_sum in sorted(SUM_RULES, reverse=True):
+        # high MTs never depend on lower MTs, except for absorption (MT=27)
+        # which depends on fission.
+        for mt_sum in sorted(SUM_RULES, key=lambda mt: (mt == 18, mt),
+                             reverse=True):
             if mt_sum not in data:
                 rxs = [data[mt] for mt in SUM_RULES[mt_sum] if mt in data]
                 if len(rxs) > 0:
-- 
2.43.0


From 1c2867930fa6f4338386182574b80040ea37bfb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 035/103] fix: export correlated distributions with discrete
 lines to HDF5

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From b8dabc61ed0f0848feade5b21b8ea7f2cb94e1bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:43 +0000
Subject: [PATCH 036/103] fix: INTG records with 3 or 6 digits are read in
 their columns

---
 ASAPy/data/endf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 752f39d..6bec831 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -309,8 +309,10 @@ def get_intg_record(file_obj):
     ndigit = int(items[2])
     npar = int(items[3])    # Number of parameters
     nlines = int(items[4])  # Lines to read
-    NROW_RULES = {2: 18, 3: 12, 4: 11, 5: 9, 6: 8}
+    NROW_RULES = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}
     nrow = NROW_RULES[ndigit]
+    # the row and column numbers are followed by a blank, except with 6 digits
+    start = 10 if ndigit == 6 else 11
 
     # read lines and build correlation matrix
     corr = np.identity(npar)
@@ -322,7 +324,7 @@ def get_intg_record(file_obj):
         for j in range(nrow):
             if jj+j >= ii:
                 break
-            element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
+            element = _int_endf(line[start+(ndigit+1)*j:start+(ndigit+1)*(j+1)])
             if element > 0:
                 corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-- 
2.43.0


From c654daf6018a5e030a81c0cf9482157eae090f33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:43 +0000
Subject: [PATCH 037/103] fix: ACE values with exponents of three digits can be
 replaced

---
 ASAPy/AceIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 3d28732..80b5caf 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -452,6 +452,8 @@ class WriteAce:
             single_line += l.replace('\n', ' ')
 
         single_line = re.sub(' +', ' ', single_line)
+        # exponents of three digits are written without the 'E', add it so these values can be found too
+        single_line = re.sub(r'(\d)([+-]\d)', r'\1E\2', single_line)
 
         return single_line, header_lines
 
-- 
2.43.0


From 9a3446f4d8e4f12679f1ff5f07187cd17b447198 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:43 +0000
Subject: [PATCH 038/103] fix: correlation_to_cov does not truncate when the
 deviations are integers

---
 ASAPy/CovManipulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 03bd605..39bf706 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -70,6 +70,7 @@ def correlation_to_cov(std, corr):
     # given R_{ij} = \frac{C_{ij}}{\sqrt{C_{ii} C_{jj}}} and
     # knowing C_ii = (std_dev of variable i)**2 and C_jj = (std_dev of variable j)**2
 
+    std = np.asarray(std, dtype=float)
     cov = np.diag(std**2)
 
     shape = len(std)
-- 
2.43.0


From fa4ab7024a135fab7023db889020487e74bc6445 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:51 +0000
Subject: [PATCH 039/103] fix: a nu-bar that is the same at all energies is
 still tabulated

---
 ASAPy/AceIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 80b5caf..c91ba49 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -1,5 +1,6 @@
 import re
 from .data import neutron
+from .data.function import Tabulated1D
 import numpy as np
 import os
 import copy
@@ -220,8 +221,7 @@ class AceEditor:
 
         prod = fiss.derived_products[0]
 
-        label = prod.__repr__()
-        if 'tabulated' not in label:
+        if not isinstance(prod.yield_, Tabulated1D):
             raise TypeError(
                 "Fission nu distribition is not stored in the tabular format (ASAPy does not support poly) " + self.ace_path)
 
-- 
2.43.0


From 99a372d5ae42838a8b835c3b3a0a6c1521761c59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:21 +0000
Subject: [PATCH 040/103] fix: neutron data read from an ENDF evaluation has a
 list of temperatures

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 061f0d9..b003877 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -751,7 +751,7 @@ class IncidentNeutron(EqualityMixin):
 
         # Instantiate incident neutron data
         data = cls(name, atomic_number, mass_number, metastable,
-                   atomic_weight_ratio, temperature)
+                   atomic_weight_ratio, [K_BOLTZMANN*temperature])
 
         if (2, 151) in ev.section:
             data.resonances = res.Resonances.from_endf(ev)
-- 
2.43.0


From 507e6ece4d3711acc60419e081b6e82395595e43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:55 +0000
Subject: [PATCH 041/103] fix: discrete photons of ENDF evaluations have the
 photon energy, not the level energy

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 269f571..5f5f2d9 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -691,7 +691,7 @@ def _get_photon_products_endf(ev, rx):
                     # TODO: Get file 15 distribution
                     pass
                 elif law == 2:
-                    energy = items[1]
+                    energy = items[0]
                     primary_flag = items[2]
                     dist.energy = DiscretePhoton(primary_flag, energy,
                                                  ev.target['mass'])
@@ -749,7 +749,7 @@ def _get_photon_products_endf(ev, rx):
                 # TODO: Get file 15 distribution
                 pass
             elif law == 2:
-                energy = items[1]
+                energy = items[0]
                 primary_flag = items[2]
                 dist.energy = DiscretePhoton(primary_flag, energy,
                                              ev.target['mass'])
-- 
2.43.0


From 1d9a20a01d9c82b20cf4f2e46684743251530b92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:55 +0000
Subject: [PATCH 042/103] fix: delayed nu of ENDF evaluations with other than
 six groups goes to the delayed neutrons

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 5f5f2d9..dc3371e 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -406,12 +406,12 @@ def _get_fission_products_endf(ev):
             # Nu represented as polynomial
             items, coefficients = get_list_record(file_obj)
             yield_ = Polynomial(coefficients)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
         elif lnu == 2:
             # Nu represented by tabulation
             params, yield_ = get_tab1_record(file_obj)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
 
         if (5, 455) in ev.section:
-- 
2.43.0


From 1f1372a57790afd743395d4e2a98106c64ee3056 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:55 +0000
Subject: [PATCH 043/103] fix: the whole delayed nu polynomial is multiplied by
 the group probability

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index dc3371e..f4396a3 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -453,7 +453,7 @@ def _get_fission_products_endf(ev):
                         delayed_neutron.yield_.y *= yield_.coef[0]
                     else:
                         if np.all(applicability.y == applicability.y[0]):
-                            yield_.coef[0] *= applicability.y[0]
+                            yield_.coef *= applicability.y[0]
                         else:
                             raise NotImplementedError(
                                 'Total delayed neutron yield and delayed group '
-- 
2.43.0


From ef4aa456a541941ef8cc787539f084e85c33a191 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 044/103] fix: the zeroth Legendre coefficient of two-body
 scattering in MF=6 is one and not given

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index f4396a3..08d5287 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -147,7 +147,7 @@ def _get_products(ev, mt):
                 energy[i] = items[1]
                 lang = items[2]
                 if lang == 0:
-                    mu.append(Legendre(values))
+                    mu.append(Legendre([1.0] + values))
                 elif lang == 12:
                     mu.append(Tabular(values[::2], values[1::2]))
                 elif lang == 14:
-- 
2.43.0


From 854d8a8bbda8cc4fdcf7e15076da0082dfdaebb4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:57 +0000
Subject: [PATCH 045/103] fix: unresolved fission widths belong to their energy
 (case B)

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..dd83aee 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -1022,7 +1022,7 @@ class Unresolved(ResonanceRange):
                     gg = values[4]
                     gf = values[6:]
                     for k, gf_i in enumerate(gf):
-                        records[k].append([l, j, d, amun, gn0, gg, gf])
+                        records[k].append([l, j, d, amun, gn0, gg, gf_i])
             parameters = [pd.DataFrame(r, columns=columns) for r in records]
 
         elif formalism == 2:
-- 
2.43.0


From 69eb6dd454e39ba1edafc651b0da18bb3a4aafea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:57 +0000
Subject: [PATCH 046/103] fix: reading an ENDF evaluation with resolved
 resonances raised NameError

---
 ASAPy/data/function.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 1ff636f..97e6284 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -624,6 +624,9 @@ class ResonancesWithBackground(EqualityMixin):
         self.mt = mt
 
     def __call__(self, x):
+        # Imported here because it imports this module
+        from . import resonance
+
         # Get background cross section
         xs = self.background(x)
 
@@ -669,6 +672,9 @@ class ResonancesWithBackground(EqualityMixin):
 
     @resonances.setter
     def resonances(self, resonances):
+        # Imported here because it imports this module
+        from .resonance import Resonances
+
         cv.check_type('resolved resonance parameters', resonances,
                       Resonances)
         self._resonances = resonances
-- 
2.43.0


From 72a2b908bf1a98b9adf63b54bb025491aa383926 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 047/103] fix: the covariance of neutron and capture width is
 read (LCOMP=0)

The slice of one element dropped it.
---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..95a476a 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -467,7 +467,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From e07700fb25df7cea7b0840aea96afc7afa87ddd2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 048/103] fix: LCOMP=0 covariances of resonances with several
 l-values raised IndexError

---
 ASAPy/data/resonance_covariance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 95a476a..e24f7c7 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -452,7 +452,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         # Compatible resolved resonance format
         elif lcomp == 0:
-            cov = np.zeros([4, 4])
+            cov = np.zeros([0, 0])
             records = []
             cov_index = 0
             for i in range(nls):
@@ -464,6 +464,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov_values = one_res[6:]
                     records.append(list(res_values))
 
+                    # Pad matrix for the values of this resonance
+                    cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                 constant_values=0)
+
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
@@ -474,9 +478,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From d2b55c06a1fc939fd3c7475e97ec4f49c4f4de99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 049/103] fix: sampling doubled the correlations of compact
 (LCOMP=2) resonance covariances

Those are stored as a full matrix, the others as the upper triangle.
---
 ASAPy/data/resonance_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index e24f7c7..7edd54e 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -234,7 +234,9 @@ class ResonanceCovarianceRange:
         parameters = self.parameters
         cov = self.covariance
 
-        # Symmetrizing covariance matrix
+        # Symmetrizing covariance matrix (only its upper triangle is used, as the
+        # compact format gives the full matrix)
+        cov = np.triu(cov)
         cov = cov + cov.T - np.diag(cov.diagonal())
         formalism = self.formalism
         mpar = self.mpar
-- 
2.43.0


From 28ac4c875d9b127ba9e8350eb0775c1ca8084f1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 050/103] fix: Reich-Moore resonances with one fission width in
 the covariance can be sampled

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 7edd54e..ef7e044 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -290,7 +290,7 @@ class ResonanceCovarianceRange:
                 gn = sample[1::mpar]
                 gg = sample[2::mpar]
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From e7e9733c136c34ac35ce62813efd90a41dc9b222 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 051/103] fix: a subset of resonances gets the covariances of
 these resonances

The covariance is in the order of File 32, not that of File 2, and the index
of a subset is not the position in its covariance matrix.
---
 ASAPy/data/resonance_covariance.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index ef7e044..44ebddf 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -184,15 +184,18 @@ class ResonanceCovarianceRange:
         # Copy range and prevent change of original
         res_cov_range = copy.deepcopy(self)
 
-        parameters = self.file2res.parameters
+        def within_bounds(parameters):
+            return ((parameters[parameter_str] >= bounds[0]) &
+                    (parameters[parameter_str] <= bounds[1]))
+
+        # The covariance matrix is in the order of the File 32 parameters
+        parameters = self.parameters
+        file2params = self.file2res.parameters
         cov = res_cov_range.covariance
         mpar = res_cov_range.mpar
-        # Create mask
-        mask1 = parameters[parameter_str] >= bounds[0]
-        mask2 = parameters[parameter_str] <= bounds[1]
-        mask = mask1 & mask2
+        mask = within_bounds(parameters)
         res_cov_range.parameters = parameters[mask]
-        indices = res_cov_range.parameters.index.values
+        indices = np.flatnonzero(mask)
         # Build subset of covariance
         sub_cov_dim = len(indices)*mpar
         cov_subset_vals = []
@@ -208,7 +211,8 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
-        res_cov_range.file2res.parameters = parameters[mask]
+        res_cov_range.file2res.parameters = \
+            file2params[within_bounds(file2params)]
         res_cov_range.covariance = cov_subset
         return res_cov_range
 
-- 
2.43.0


From ae8a4e3d57cdcd6a26bc5081f1dc2c0582aa6eda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 052/103] fix: resonance covariances given in several blocks
 (LCOMP=1) are all kept

---
 ASAPy/data/resonance_covariance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 44ebddf..8ea6ab9 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -5,6 +5,7 @@ import copy
 
 import numpy as np
 import pandas as pd
+from scipy.linalg import block_diag
 
 from . import endf
 from . import checkvalue as cv
@@ -398,6 +399,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -422,6 +424,9 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                 cov = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
                 cov[indices] = cov_values
+                blocks.append(cov)
+            # There are no covariances between the blocks
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -635,6 +640,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -659,6 +665,9 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
                 cov = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
                 cov[indices] = cov_values
+                blocks.append(cov)
+            # There are no covariances between the blocks
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From 186bb41bcd38e74dbf7c6871064a1af033925712 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 053/103] fix: uncertainties of the scattering radius (ISR) in
 File 32 are skipped

The record was taken for the one after it.
---
 ASAPy/data/resonance_covariance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 8ea6ab9..8dd01e9 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -388,6 +388,8 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # number of l-values
+        if items[5] > 0:  # Uncertainty of the scattering radius
+            endf.get_cont_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
@@ -628,6 +630,8 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # Number of l-values
+        if items[5] > 0:  # Uncertainties of the scattering radii
+            endf.get_list_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
-- 
2.43.0


From b974b84af5ed0b3b89d2dbe12e31ace2933b759c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 054/103] fix: resonance covariances of later isotopes belong
 to their own ranges of File 2

---
 ASAPy/data/resonance_covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 8dd01e9..1121cca 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -94,6 +94,7 @@ class ResonanceCovariances(Resonances):
         n_isotope = items[4]  # Number of isotopes
 
         ranges = []
+        n_previous = 0  # Number of ranges of previous isotopes
         for iso in range(n_isotope):
             items = endf.get_cont_record(file_obj)
             abundance = items[1]
@@ -116,7 +117,7 @@ class ResonanceCovariances(Resonances):
 
                 if unresolved_flag in (0, 1):
                     # Resolved resonance region
-                    resonance = resonances.ranges[j]
+                    resonance = resonances.ranges[n_previous + j]
                     erange = _FORMALISMS[formalism].from_endf(ev, file_obj,
                                                               items, resonance)
                     ranges.append(erange)
@@ -126,6 +127,8 @@ class ResonanceCovariances(Resonances):
                            'values for the unresolved region not imported.'
                     warnings.warn(warn)
 
+            n_previous += n_ranges
+
         return cls(ranges)
 
 
-- 
2.43.0


From 5cb7a146417b8bac50cad070064095f18c1ee092 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:30 +0000
Subject: [PATCH 055/103] fix: coherent elastic cross section sums the Bragg
 edges below the energy

It took the partial sum of one edge too many: not zero below the first edge
and an IndexError above the last one.
---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 7141212..5cb0443 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -141,8 +141,9 @@ class CoherentElastic(EqualityMixin):
     def __call__(self, E):
         if isinstance(E, Iterable):
             E = np.asarray(E)
+        # Number of Bragg edges below each energy
         idx = np.searchsorted(self.bragg_edges, E)
-        return self.factors[idx] / E
+        return np.concatenate(([0.0], self.factors))[idx] / E
 
     def __len__(self):
         return len(self.bragg_edges)
-- 
2.43.0


From 0ddb2584f1a10bdb95fe0f25867bcc92ac9b3eb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:30 +0000
Subject: [PATCH 056/103] fix: ThermalScattering.from_ace uses the name it is
 given

---
 ASAPy/data/thermal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 5cb0443..f28c0ce 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -477,8 +477,9 @@ class ThermalScattering(EqualityMixin):
             ace = get_table(ace_or_filename)
 
         # Get new name that is GND-consistent
-        ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            ace_name, xs = ace.name.split('.')
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From 305469394cc8b2ad845b1ebe4956486ded105104 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 057/103] fix: a decay of unknown kind (RTYP 10) is not a beta
 decay followed by a gamma

---
 ASAPy/data/decay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 9373c2b..03de063 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -59,6 +59,10 @@ def get_decay_modes(value):
         List of successive decays, e.g. ('beta-', 'neutron')
 
     """
+    if int(value) == 10:
+        # 10 is a single mode of its own rather than a sequence of digits
+        return [_DECAY_MODES[10][0]]
+
     return [_DECAY_MODES[int(x)][0] for x in
             str(value).strip('0').replace('.', '')]
 
-- 
2.43.0


From 213ee3a78979b45cf797862183b5e92eed61a57e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 058/103] fix: cumulative fission yields can be read without
 independent ones

---
 ASAPy/data/decay.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 03de063..3848000 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -146,6 +146,10 @@ class FissionProductYields(EqualityMixin):
             'isomeric_state': ev.target['isomeric_state']
         }
 
+        self.energies = None
+        self.independent = []
+        self.cumulative = []
+
         # Read independent yields
         if (8, 454) in ev.section:
             file_obj = StringIO(ev.section[8, 454])
@@ -155,6 +159,8 @@ class FissionProductYields(EqualityMixin):
         if (8, 459) in ev.section:
             file_obj = StringIO(ev.section[8, 459])
             energies, self.cumulative = get_yields(file_obj)
+            if self.energies is None:
+                self.energies = energies
             assert np.all(energies == self.energies)
 
     @classmethod
-- 
2.43.0


From 9177aa79d7d53f74dc69bcb8d0cd1b06110d25ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 059/103] fix: covariances of a decay spectrum can be read more
 than once

---
 ASAPy/data/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 3848000..25f56d9 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -452,7 +452,7 @@ class Decay(EqualityMixin):
                     if LCOV != 0:
                         items, values = get_list_record(file_obj)
                         ci['covariance_lb'] = items[3]
-                        ci['covariance'] = zip(values[0::2], values[1::2])
+                        ci['covariance'] = list(zip(values[0::2], values[1::2]))
 
                     spectrum['continuous'] = ci
 
-- 
2.43.0


From 5ca9bc802ed1f8b24159d3bc7e8437f493a6fa8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 060/103] fix: an unknown spin of a stable nuclide is None as
 for radioactive ones

---
 ASAPy/data/decay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 25f56d9..061bad4 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -462,7 +462,8 @@ class Decay(EqualityMixin):
         else:
             items, values = get_list_record(file_obj)
             items, values = get_list_record(file_obj)
-            self.nuclide['spin'] = items[0]
+            spin = items[0]
+            self.nuclide['spin'] = None if spin == -77.777 else spin
             self.nuclide['parity'] = items[1]
             self.half_life = ufloat(float('inf'), float('inf'))
 
-- 
2.43.0


From 9adc7ab8e34faf250b03832a0905a431adda907b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 061/103] fix: data generated by NJOY for Am242 are not those
 of the other isomer

make_ace adds 400 to the mass number of any metastable target, which is not
the MCNP convention for Am242 that from_ace assumes by default.
---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index b003877..259db37 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -826,7 +826,7 @@ class IncidentNeutron(EqualityMixin):
 
             # Create instance from ACE tables within library
             lib = Library(ace_file)
-            data = cls.from_ace(lib.tables[0])
+            data = cls.from_ace(lib.tables[0], metastable_scheme='nndc')
             for table in lib.tables[1:]:
                 data.add_temperature_from_ace(table)
 
-- 
2.43.0


From a54fb1172556e9c7e62f8bcc274be8464b2ccc3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 062/103] fix: evaluations without resonance parameters (File
 2) can be read

---
 ASAPy/data/neutron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 259db37..df594da 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -768,7 +768,8 @@ class IncidentNeutron(EqualityMixin):
 
         # Replace cross sections for elastic, capture, fission
         try:
-            if any(isinstance(r, res._RESOLVED) for r in data.resonances):
+            if data.resonances is not None and any(
+                    isinstance(r, res._RESOLVED) for r in data.resonances):
                 for mt in (2, 102, 18):
                     if mt in data.reactions:
                         rx = data.reactions[mt]
-- 
2.43.0


From 889d6de1da03f2d757b4309db79cd083e6bbfe2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 063/103] fix: 0 K elastic cross section of evaluations without
 resolved resonances

A scattering radius alone was taken for a range with resonances, and an
unresolved range alone gave an empty cross section.
---
 ASAPy/data/neutron.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index df594da..57a734c 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -306,14 +306,14 @@ class IncidentNeutron(EqualityMixin):
             raise ValueError('0 K data already exists for this nuclide.')
 
         data = type(self).from_endf(filename)
-        if data.resonances is not None:
+        resolved = [rr for rr in data.resonances or []
+                    if isinstance(rr, res._RESOLVED)]
+        if resolved:
             x = []
             y = []
-            for rr in data.resonances:
+            for rr in resolved:
                 if isinstance(rr, res.RMatrixLimited):
                     raise TypeError('R-Matrix Limited not supported.')
-                elif isinstance(rr, res.Unresolved):
-                    continue
 
                 # Get energies/widths for resonances
                 e_peak = rr.parameters['energy'].values
-- 
2.43.0


From bbca24f6ac7d54e15d10d3a224476ceb1105eccb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 064/103] fix: copies of a resonance range do not share their
 prepared parameters

Reconstructing a copy with other parameters (e.g. sampled ones) changed the
cross sections of the original and of all other copies.
---
 ASAPy/data/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index dd83aee..385610a 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -168,6 +168,7 @@ class ResonanceRange(object):
         new_copy = cls.__new__(cls)
         new_copy.__dict__.update(self.__dict__)
         new_copy._prepared = False
+        new_copy._parameter_matrix = {}
         return new_copy
 
     @classmethod
-- 
2.43.0


From 4c7a86885debe50a9b569da51e9c88254f7328e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 065/103] fix: 0 K elastic cross section includes the
 resonances at the ends of the range

Rounding in logspace put the end points outside of the resolved range.
---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 57a734c..e24e2e8 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -355,6 +355,7 @@ class IncidentNeutron(EqualityMixin):
                 # Create 1000 equal log-spaced energies over RRR, combine with
                 # resonance peaks and half-height energies
                 e_log = np.logspace(log10(e_min), log10(e_max), 1000)
+                e_log[0], e_log[-1] = e_min, e_max
                 energies = np.union1d(e_log, energies)
 
                 # Linearize and thin cross section
-- 
2.43.0


From e81c907194eb08d94d0cd2f5bb4f054e1da2dc37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 066/103] fix: the resonances of adjacent ranges are not both
 counted at their boundary

---
 ASAPy/data/function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 97e6284..0c610c5 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -630,19 +630,25 @@ class ResonancesWithBackground(EqualityMixin):
         # Get background cross section
         xs = self.background(x)
 
+        # Energies for which a range has been found already; a boundary between
+        # two ranges belongs to the first of them only
+        found = np.zeros(np.shape(x), dtype=bool)
+
         for r in self.resonances:
             if not isinstance(r, resonance._RESOLVED):
                 continue
 
             if isinstance(x, Iterable):
                 # Determine which energies are within resolved resonance range
-                within = (r.energy_min <= x) & (x <= r.energy_max)
+                within = (r.energy_min <= x) & (x <= r.energy_max) & ~found
+                found |= within
 
                 # Get resonance cross sections and add to background
                 resonant_xs = r.reconstruct(x[within])
                 xs[within] += resonant_xs[self.mt]
             else:
-                if r.energy_min <= x <= r.energy_max:
+                if r.energy_min <= x <= r.energy_max and not found:
+                    found = True
                     resonant_xs = r.reconstruct(x)
                     xs += resonant_xs[self.mt]
 
-- 
2.43.0


From 60e61fdbe55e175f487562e513271510139f38eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 067/103] fix: Breit-Wigner resonances with a competitive width
 can be reconstructed

The Q value was looked up under a name that does not exist, the wave number
of the competitive channel was missing from its penetrability, and the
channel was only prepared if the first resonance had a competitive width.
---
 ASAPy/data/reconstruct.pyx | 14 ++++++++------
 ASAPy/data/resonance.py    |  7 +++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index f63a155..a0e178f 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -143,7 +143,7 @@ def reconstruct_mlbw(mlbw, double E):
     cdef double elastic, capture, fission
     cdef double A, k, rho, rhohat, I
     cdef double P, S, phi, cos2phi, sin2phi
-    cdef double Ex, Q, rhoc, rhochat, P_c, S_c
+    cdef double Ex, Q, k_c, rhoc, rhochat, P_c, S_c
     cdef double jmin, jmax, j, Dl
     cdef double E_r, gt, gn, gg, gf, gx, P_r, S_r, P_rx
     cdef double gnE, gtE, Eprime, x, f
@@ -172,8 +172,9 @@ def reconstruct_mlbw(mlbw, double E):
         # Determine shift and penetration at modified energy
         if mlbw._competitive[i]:
             Ex = E + mlbw.q_value[l]*(A + 1)/A
-            rhoc = mlbw.channel_radius[l](Ex)
-            rhochat = mlbw.scattering_radius[l](Ex)
+            k_c = _wave_number(A, Ex)
+            rhoc = k_c*mlbw.channel_radius[l](Ex)
+            rhochat = k_c*mlbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
@@ -268,7 +269,7 @@ def reconstruct_slbw(slbw, double E):
     cdef double elastic, capture, fission
     cdef double A, k, rho, rhohat, I
     cdef double P, S, phi, cos2phi, sin2phi, sinphi2
-    cdef double Ex, rhoc, rhochat, P_c, S_c
+    cdef double Ex, k_c, rhoc, rhochat, P_c, S_c
     cdef double E_r, J, gt, gn, gg, gf, gx, P_r, S_r, P_rx
     cdef double gnE, gtE, Eprime, f
     cdef double x, theta, psi, chi
@@ -299,8 +300,9 @@ def reconstruct_slbw(slbw, double E):
         # Determine shift and penetration at modified energy
         if slbw._competitive[i]:
             Ex = E + slbw.q_value[l]*(A + 1)/A
-            rhoc = slbw.channel_radius[l](Ex)
-            rhochat = slbw.scattering_radius[l](Ex)
+            k_c = _wave_number(A, Ex)
+            rhoc = k_c*slbw.channel_radius[l](Ex)
+            rhochat = k_c*slbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 385610a..bc2c191 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -421,7 +421,9 @@ class MultiLevelBreitWigner(ResonanceRange):
         for i, E, l, J, gt, gn, gg, gf, gx in df.itertuples():
             if l not in l_values:
                 l_values.append(l)
-                competitive.append(gx > 0)
+                competitive.append(False)
+            if gx > 0:
+                competitive[l_values.index(l)] = True
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
@@ -431,7 +433,8 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
-                Ex = E + self.q[l]*(A + 1)/A
+                Ex = E + self.q_value[l]*(A + 1)/A
+                k = wave_number(A, Ex)
                 rho = k*self.channel_radius[l](Ex)
                 rhohat = k*self.scattering_radius[l](Ex)
                 px[i], sx[i] = penetration_shift(l, rho)
-- 
2.43.0


From d66dd516140c817200a36ffa38d70074bfe17431 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 068/103] fix: Reich-Moore resonances with a single possible
 channel spin are not dropped

The sign of J tells the channel spin only if both are possible for that J.
Resonances that only the lower channel spin allows have positive J too.
---
 ASAPy/data/reconstruct.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index a0e178f..7957404 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -446,7 +446,8 @@ def reconstruct_rm(rm, double E):
                         # this resonance comes from the I - 1/2 channel and vice
                         # versa.
                         j = params[i_res, 2]
-                        if l > 0:
+                        if abs(l - smin) <= J <= l + smin and \
+                           abs(l - smax) <= J <= l + smax:
                             if (j < 0 and s != smin) or (j > 0 and s != smax):
                                 continue
 
-- 
2.43.0


From dfde1a4b7390db78712f83277da501bdb5480911 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 069/103] fix: energy-dependent radii at bound levels are those
 at the absolute energy

Tables of the radius give zero at negative energies, which made the
penetrability zero and the cross sections infinite.
---
 ASAPy/data/resonance.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index bc2c191..86b4519 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -427,16 +427,16 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
-            rho = k*self.channel_radius[l](E)
-            rhohat = k*self.scattering_radius[l](E)
+            rho = k*self.channel_radius[l](abs(E))
+            rhohat = k*self.scattering_radius[l](abs(E))
             p[i], s[i] = penetration_shift(l, rho)
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
                 Ex = E + self.q_value[l]*(A + 1)/A
                 k = wave_number(A, Ex)
-                rho = k*self.channel_radius[l](Ex)
-                rhohat = k*self.scattering_radius[l](Ex)
+                rho = k*self.channel_radius[l](abs(Ex))
+                rhohat = k*self.scattering_radius[l](abs(Ex))
                 px[i], sx[i] = penetration_shift(l, rho)
             else:
                 px[i] = sx[i] = 0.0
@@ -684,8 +684,8 @@ class ReichMoore(ResonanceRange):
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
-            rho = k*self.channel_radius[l](E)
-            rhohat = k*self.scattering_radius[l](E)
+            rho = k*self.channel_radius[l](abs(E))
+            rhohat = k*self.scattering_radius[l](abs(E))
             p[i], s[i] = penetration_shift(l, rho)
 
         df['p'] = p
-- 
2.43.0


From ab9dc8e3f0273c980f9e9b6472a91768cd2a6ca6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 070/103] fix: windowed multipole cross sections at the upper
 end of the energy range

The window found there is one past the last one.
---
 ASAPy/data/multipole.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index e97605c..201b96f 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -417,7 +417,8 @@ class WindowedMultipole(EqualityMixin):
         # the 1-based vs. 0-based indexing.  Similarly startw needs to be
         # decreased by 1.  endw does not need to be decreased because
         # range(startw, endw) does not include endw.
-        i_window = int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing))
+        i_window = min(self.windows.shape[0] - 1,
+                       int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing)))
         startw = self.windows[i_window, 0] - 1
         endw = self.windows[i_window, 1]
 
-- 
2.43.0


From 996dc3cc4cc8fcb251547f2fa09fccfe4498e50c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 071/103] fix: windowed multipole cross sections are not
 truncated after an energy outside

numpy.vectorize takes the type of all results from the first one.
---
 ASAPy/data/multipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 201b96f..1772c67 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -402,8 +402,8 @@ class WindowedMultipole(EqualityMixin):
 
         """
 
-        if E < self.E_min: return (0, 0, 0)
-        if E > self.E_max: return (0, 0, 0)
+        if E < self.E_min: return (0., 0., 0.)
+        if E > self.E_max: return (0., 0., 0.)
 
         # ======================================================================
         # Bookkeeping
-- 
2.43.0


From fb0a13db8f60f2b866afb1b098b9deb7d6089a11 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:19 +0000
Subject: [PATCH 072/103] fix: cross sections reconstructed at integer energies
 are not truncated

---
 ASAPy/data/resonance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 86b4519..b9b886e 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -234,9 +234,9 @@ class ResonanceRange(object):
             self._prepare_resonances()
 
         if isinstance(energies, Iterable):
-            elastic = np.zeros_like(energies)
-            capture = np.zeros_like(energies)
-            fission = np.zeros_like(energies)
+            elastic = np.zeros_like(energies, dtype=float)
+            capture = np.zeros_like(energies, dtype=float)
+            fission = np.zeros_like(energies, dtype=float)
 
             for i, E in enumerate(energies):
                 xse, xsg, xsf = self._reconstruct(self, E)
-- 
2.43.0


From 88f336bc22039f533b477d3c3dff9a4ec13d4fef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 073/103] fix: data holding dictionaries of arrays or lists of
 unequal length compare by value

---
 ASAPy/data/mixin.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/mixin.py b/ASAPy/data/mixin.py
index 11ac51a..8b8b897 100644
--- a/ASAPy/data/mixin.py
+++ b/ASAPy/data/mixin.py
@@ -1,3 +1,4 @@
+from collections.abc import Mapping
 from numbers import Integral
 from warnings import warn
 
@@ -6,6 +7,15 @@ import numpy as np
 from . import checkvalue as cv
 
 
+def _equal(a, b):
+    """Compare values, item by item where they can't be put in a single array"""
+    if isinstance(a, Mapping) and isinstance(b, Mapping):
+        return a.keys() == b.keys() and all(_equal(a[key], b[key]) for key in a)
+    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
+    return np.array_equal(a, b)
+
+
 class EqualityMixin(object):
     """A Class which provides generic __eq__ and __ne__ functionality which
     can easily be inherited by downstream classes.
@@ -14,7 +24,7 @@ class EqualityMixin(object):
     def __eq__(self, other):
         if isinstance(other, type(self)):
             for key, value in self.__dict__.items():
-                if not np.array_equal(value, other.__dict__.get(key)):
+                if not _equal(value, other.__dict__.get(key)):
                     return False
         else:
             return False
-- 
2.43.0


From 836e9425d486b4cc2ca188e91f8c1d9d25fd8be8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 074/103] fix: Madland-Nix spectra written to HDF5 can be read
 back

---
 ASAPy/data/energy_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index 0243aab..762be81 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -731,7 +731,7 @@ class MadlandNix(EnergyDistribution):
         group.attrs['type'] = np.string_('madland-nix')
         group.attrs['efl'] = self.efl
         group.attrs['efh'] = self.efh
-        self.tm.to_hdf5(group)
+        self.tm.to_hdf5(group, 'tm')
 
     @classmethod
     def from_hdf5(cls, group):
-- 
2.43.0


From 71a33990f0d322e53c0fe5fff440026310625550 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 075/103] fix: probability tables of neutron data can be set

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index e24e2e8..1cc4491 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -228,7 +228,7 @@ class IncidentNeutron(EqualityMixin):
     @urr.setter
     def urr(self, urr):
         cv.check_type('probability table dictionary', urr, MutableMapping)
-        for key, value in urr:
+        for key, value in urr.items():
             cv.check_type('probability table temperature', key, str)
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
-- 
2.43.0


From 2b51bbd003e205f6fee51d7512c46e8b3ef4f595 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 076/103] fix: Kalbach-Mann distributions with negative
 probabilities can be read back from HDF5

---
 ASAPy/data/kalbach_mann.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 06e7925..c94e613 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -233,7 +233,8 @@ class KalbachMann(angle_energy.AngleEnergy):
             # Create continuous distribution
             if m < n:
                 interp = INTERPOLATION_SCHEME[interpolation[i]]
-                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n], interp)
+                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n], interp,
+                                          ignore_negative=True)
                 eout_continuous.c = data[2, j+m:j+n]
 
             # If both continuous and discrete are present, create a mixture
-- 
2.43.0


From 062b0d961f1318cad7f581518acbc494dfee0170 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 077/103] fix: neutron data without resonance covariances have
 None for them, as documented

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 1cc4491..a24095b 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -110,6 +110,7 @@ class IncidentNeutron(EqualityMixin):
         self.reactions = OrderedDict()
         self._urr = {}
         self._resonances = None
+        self._resonance_covariance = None
 
     def __contains__(self, mt):
         return mt in self.reactions
-- 
2.43.0


From c814b55e7cd7da34087041544199cbff9116eab8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 078/103] fix: -num_oversamples makes that many samples and
 keeps the number asked for

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 05e0804..4bd4621 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -374,7 +374,6 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
     """
 
     if not num_samples_to_make:
-        # todo actually use this..
         num_samples_to_make = num_samples
 
     # ensure type
@@ -385,8 +384,10 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
     # sample data, keep the relative and full values sampled for plotting later
     xsec = XsecSampler(h, zaid, mt)
 
-    sample_df_full_vals = xsec.sample(sample_type, num_samples, return_relative=False, remove_neg=remove_neg,
+    sample_df_full_vals = xsec.sample(sample_type, int(num_samples_to_make), return_relative=False, remove_neg=remove_neg,
                                       raise_on_bad_sample=raise_on_bad_sample, mt=mt)
+    # negative samples may have been removed, only keep as many samples as asked for
+    sample_df_full_vals = sample_df_full_vals.iloc[:, :num_samples]
     mean = xsec.std_dev_df['x-sec(1)'].values
     # get the full values by multiplying in the mean by having the internal sample checker "normalize" the values to the 1/mean
 
-- 
2.43.0


From d2aee932ce8877721e7cbe9e101069ba4c86aa8e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 079/103] fix: the colours of the correlation plot span both
 matrices

---
 ASAPy/XsecSampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 4bd4621..4ecba73 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -582,8 +582,8 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
         vmin = -1.0
         vmax = 1.0
     else:
-        vmin = np.amax(corr.values)
-        vmax = np.amin(corr.values)
+        vmin = np.amin(corr.values)
+        vmax = np.amax(corr.values)
 
     if np.amax(corr_for_plot2) > vmax:
         vmax = np.amax(corr_for_plot2)
-- 
2.43.0


From a51411f8148814bcf7d83dac1de8bc25889a328b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 080/103] fix: cross sections that are zero everywhere can be
 plotted

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 4ecba73..4e64984 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -537,7 +537,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
     # to see if we should log, check only nonzero values
     # let it be ugly if zome zeros found?
     nonzero_st = st[np.nonzero(st)]
-    if max(nonzero_st)/min(nonzero_st) > 1000:
+    if len(nonzero_st) > 0 and max(nonzero_st)/min(nonzero_st) > 1000:
         set_log_scale(ax, log_x, True)
     else:
         set_log_scale(ax, log_x, False)
-- 
2.43.0


From be3c3af446cd4c27ae774b54bf4f55882ec17a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:42 +0000
Subject: [PATCH 081/103] fix: thermal ACE files of several temperatures are
 joined in the file asked for

---
 ASAPy/njoy.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index f7f3d10..c50a7ee 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -846,7 +846,22 @@ def make_ace_thermal(filename, filename_thermal, temperatures=None,
         tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     run(commands, tapein, tapeout, **kwargs)
-        
+
+    with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
+        # Concatenate ACE and xsdir files together
+        for temperature in temperatures:
+            text = open(fname.format(ace, temperature), 'r').read()
+            ace_file.write(text)
+
+            text = open(fname.format(xsdir, temperature), 'r').read()
+            xsdir_file.write(text)
+
+    # Remove ACE/xsdir files for each temperature
+    for temperature in temperatures:
+        os.remove(fname.format(ace, temperature))
+        os.remove(fname.format(xsdir, temperature))
+
+
 if __name__ == "__main__":
     make_njoy_run('/Users/veeshy/projects/ASAPy/data/e71/tape20', temperatures=[300], ace='ace', xsdir='xsdir', pendf=None,
                   error=0.001, broadr=True, heatr=False, purr=False, acer=False, errorr=True,
-- 
2.43.0


From 4a09429877592d2dd2a3f22b0238526b38777ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:37 +0000
Subject: [PATCH 082/103] fix: check_filetype_version reports files without a
 readable type

---
 ASAPy/data/checkvalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index cbeac9c..9f58dd2 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -271,7 +271,8 @@ def check_filetype_version(obj, expected_type, expected_version):
     except AttributeError:
         raise IOError('Could not read {} file. This most likely means the {} '
                       'file was produced by a different version of OpenMC than '
-                      'the one you are using.'.format(expected_type))
+                      'the one you are using.'.format(obj.filename,
+                                                      expected_type))
 
 
 class CheckedList(list):
-- 
2.43.0


From 39dc6f4fb6b16e6bea0a125f804f4a2fac2cfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:37 +0000
Subject: [PATCH 083/103] fix: check_type refuses arrays when several item
 types are allowed

---
 ASAPy/data/checkvalue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index 9f58dd2..782e617 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -34,11 +34,7 @@ def check_type(name, value, expected_type, expected_iter_type=None):
 
     if expected_iter_type:
         if isinstance(value, np.ndarray):
-            if not issubclass(value.dtype.type, expected_iter_type):
-                msg = 'Unable to set "{0}" to "{1}" since each item must be ' \
-                      'of type "{2}"'.format(name, value,
-                                             expected_iter_type.__name__)
-            else:
+            if issubclass(value.dtype.type, expected_iter_type):
                 return
 
         for item in value:
-- 
2.43.0


From 24c43cc391ac6c14e8b2d7a6c02ec7da2f956471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 084/103] fix: CheckedList keeps the order when it is added to
 a list

---
 ASAPy/data/checkvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index 782e617..0b181ee 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -298,7 +298,7 @@ class CheckedList(list):
         return new_instance
 
     def __radd__(self, other):
-        return self + other
+        return CheckedList(self.expected_type, self.name, other) + self
 
     def __iadd__(self, other):
         check_type('CheckedList add operand', other, Iterable,
-- 
2.43.0


From d63198dde7c7e76eba4e73cac48303eca5698963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 085/103] fix: CheckedList keeps what an iterator gives

---
 ASAPy/data/checkvalue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index 0b181ee..4f60ed5 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -301,6 +301,8 @@ class CheckedList(list):
         return CheckedList(self.expected_type, self.name, other) + self
 
     def __iadd__(self, other):
+        check_type('CheckedList add operand', other, Iterable)
+        other = list(other)
         check_type('CheckedList add operand', other, Iterable,
                    self.expected_type)
         for item in other:
-- 
2.43.0


From 9535be5f3bd193d1b3f8b4ee66a70033ce6a59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 086/103] fix: delayed nu is only renormalized when all group
 probabilities are constant

---
 ASAPy/data/reaction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 08d5287..1244cfe 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -278,6 +278,7 @@ def _get_fission_products_ace(ace):
         idx = ace.jxs[25]
         n_group = ace.nxs[8]
         total_group_probability = 0.
+        n_constant = 0
         for group in range(n_group):
             delayed_neutron = Product('neutron')
             delayed_neutron.emission_mode = 'delayed'
@@ -290,6 +291,7 @@ def _get_fission_products_ace(ace):
                 delayed_neutron.yield_ = deepcopy(yield_delayed)
                 delayed_neutron.yield_.y *= group_probability.y[0]
                 total_group_probability += group_probability.y[0]
+                n_constant += 1
             else:
                 # Get union energy grid and ensure energies are within
                 # interpolable range of both functions
@@ -314,9 +316,10 @@ def _get_fission_products_ace(ace):
             products.append(delayed_neutron)
 
         # Renormalize delayed neutron yields to reflect fact that in ACE
-        # file, the sum of the group probabilities is not exactly one
+        # file, the sum of the group probabilities is not exactly one. The sum
+        # is only known if none of them depends on energy.
         for product in products[1:]:
-            if total_group_probability > 0.:
+            if n_constant == n_group and total_group_probability > 0.:
                 product.yield_.y /= total_group_probability
 
     return products, derived_products
-- 
2.43.0


From b46749d56f023c6a0ff08faec78c8cf243c637cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 087/103] fix: tabulated functions are only set to their end
 values next to the ends

---
 ASAPy/data/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 0c610c5..af30f3e 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -204,8 +204,8 @@ class Tabulated1D(Function1D):
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-        y[np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
-        y[np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
+        y[np.isclose(x, self.x[0], rtol=1e-10, atol=1e-14)] = self.y[0]
+        y[np.isclose(x, self.x[-1], rtol=1e-10, atol=1e-14)] = self.y[-1]
 
         return y if iterable else y[0]
 
-- 
2.43.0


From 5dbdc4fcb351031965232e31552902b349d6632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:10 +0000
Subject: [PATCH 088/103] fix: covariances of a single group can be plotted

---
 ASAPy/XsecSampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 4e64984..dcb8374 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -494,7 +494,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
     y_for_plot = list(xsec['s.d.(1)'] ** 2)
     y_for_plot.append(y_for_plot[-1])
 
-    y2_for_plot = list(np.diag(np.cov(sample_df_full_vals)))
+    y2_for_plot = list(np.diag(np.atleast_2d(np.cov(sample_df_full_vals))))
     y2_for_plot.append(y2_for_plot[-1])
 
     fig, ax = plt.subplots()
@@ -556,7 +556,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     # make sure the elow isn't 0 so if we log the data it doesn't break..
     if xsec['e low'].values[-1] == 0:
-        elow_to_append = xsec['e low'].values[-2] / 2
+        elow_to_append = xsec['e high'].values[-1] / 2
     else:
         elow_to_append = xsec['e low'].values[-1]
 
@@ -568,9 +568,9 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     with np.errstate(all='ignore'):
         if corr_rel_diff:
-            corr_for_plot2 = np.abs(np.corrcoef(sample_df_full_vals) - corr.values)
+            corr_for_plot2 = np.abs(np.atleast_2d(np.corrcoef(sample_df_full_vals)) - corr.values)
         else:
-            corr_for_plot2 = np.corrcoef(sample_df_full_vals)
+            corr_for_plot2 = np.atleast_2d(np.corrcoef(sample_df_full_vals))
             corr_for_plot2[np.isnan(corr_for_plot2)] = 0
 
             # if the original corr was 0 on the diag, the sampled distro was not actually sampled so lets not plot that
-- 
2.43.0


From 4593155ca9c086ebd003b93519f90d324835b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:10 +0000
Subject: [PATCH 089/103] fix: distribution names are accepted in any case

---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 39bf706..81c861f 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -291,6 +291,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
 
     """
 
+    distro = distro.lower()
+
     mean_values_original = np.array(mean_values)
     desired_corr = np.array(desired_corr)
 
@@ -383,8 +385,6 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
 
     # in theory ANY distro can be used for each var, for easy of interface only one distribution is used here
 
-    distro = distro.lower()
-
     # create a norm distro with mean/std_dev then sample from it using percent point func (inv of cdf percentiles)
     if distro == 'normal':
         distro_to_sample_from = sci_norm
-- 
2.43.0


From 4c6092e865498862fa6057187765e3c89cbb14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:09 +0000
Subject: [PATCH 090/103] fix: the 0 K grid surrounds every resonance whatever
 the order of their groups

---
 ASAPy/data/neutron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index a24095b..e341814 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -333,6 +333,11 @@ class IncidentNeutron(EqualityMixin):
                 e_peak = e_peak[in_range]
                 gamma = gamma[in_range]
 
+                # Resonances are grouped by l, sort them by energy
+                order = np.argsort(e_peak)
+                e_peak = e_peak[order]
+                gamma = gamma[order]
+
                 # Get midpoints between resonances (use min/max energy of
                 # resolved region as absolute lower/upper bound)
                 e_mid = np.concatenate(
-- 
2.43.0


From e4bd1f6253a3308b61c437bdc58e21a487a2d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:19 +0000
Subject: [PATCH 091/103] fix: records of an unresolved range in File 32 are
 skipped

---
 ASAPy/data/resonance_covariance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 1121cca..ce69139 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -126,6 +126,10 @@ class ResonanceCovariances(Resonances):
                     warn = 'Unresolved resonance not supported. Covariance '\
                            'values for the unresolved region not imported.'
                     warnings.warn(warn)
+                    # Skip its records, the ranges of other isotopes follow
+                    n_l_values = endf.get_cont_record(file_obj)[4]
+                    for k in range(n_l_values + 1):
+                        endf.get_list_record(file_obj)
 
             n_previous += n_ranges
 
-- 
2.43.0


From 7b35105bdfc3b34fd64b0c2e2fd29cf15b4aedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:19 +0000
Subject: [PATCH 092/103] fix: energy-dependent scattering radii in File 32 are
 skipped as covariances

---
 ASAPy/data/resonance_covariance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index ce69139..9958c4c 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -384,11 +384,13 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         """
 
-        # Read energy-dependent scattering radius if present
+        # Skip covariances of an energy-dependent scattering radius if present
         energy_min, energy_max = items[0:2]
         nro, naps = items[4:6]
         if nro != 0:
-            params, ape = endf.get_tab1_record(file_obj)
+            n_sections = endf.get_cont_record(file_obj)[5]
+            for i in range(n_sections):
+                endf.get_list_record(file_obj)
 
         # Other scatter radius parameters
         items = endf.get_cont_record(file_obj)
@@ -626,11 +628,13 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             Reich-Moore resonance covariance parameters
 
         """
-        # Read energy-dependent scattering radius if present
+        # Skip covariances of an energy-dependent scattering radius if present
         energy_min, energy_max = items[0:2]
         nro, naps = items[4:6]
         if nro != 0:
-            params, ape = endf.get_tab1_record(file_obj)
+            n_sections = endf.get_cont_record(file_obj)[5]
+            for i in range(n_sections):
+                endf.get_list_record(file_obj)
 
         # Other scatter radius parameters
         items = endf.get_cont_record(file_obj)
-- 
2.43.0


From 37b41be98d8fb8a70c8bc0d33831c520cf319bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:20 +0000
Subject: [PATCH 093/103] fix: cross sections that end below the top of the
 energy grid survive HDF5

---
 ASAPy/data/reaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 1244cfe..a3ecc31 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -941,7 +941,8 @@ class Reaction(EqualityMixin):
                             'exists.'.format(mt, T))
                     xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
-                    tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
+                    tabulated_xs = Tabulated1D(
+                        energy[T][threshold_idx:threshold_idx + xs.size], xs)
                     tabulated_xs._threshold_idx = threshold_idx
                     rx.xs[T] = tabulated_xs
 
-- 
2.43.0


From 36479cec715fe139546abba2f901255eff466a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:20 +0000
Subject: [PATCH 094/103] fix: type-checked lists check the items they are
 extended with

---
 ASAPy/data/checkvalue.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index 4f60ed5..4b26f2f 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -321,6 +321,17 @@ class CheckedList(list):
         check_type(self.name, item, self.expected_type)
         super().append(item)
 
+    def extend(self, items):
+        """Extend list by appending items
+
+        Parameters
+        ----------
+        items : Iterable
+            Items to append
+
+        """
+        self += items
+
     def insert(self, index, item):
         """Insert item before index
 
-- 
2.43.0


From 1e11dbd4e97b97b2f325ad1431230e04a73c5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 095/103] fix: a reaction given twice is sampled once

The second set of factors was applied on top of the first, and only the
second was written to the CSV.
---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index dcb8374..b9440b3 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -914,7 +914,7 @@ if __name__ == "__main__":
         # remove mt's not in the ACE file and print to the user (todo: log)
         # this occurs often when redundant cross-sections are present
         adjustable_mts = []
-        for mt in mts:
+        for mt in dict.fromkeys(mts):
             if mt in ace_data.all_mts:
                 adjustable_mts.append(mt)
             else:
-- 
2.43.0


From 1dc92ebf2fb72de8d831211f2abfb451bedd6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 096/103] fix: neutrons from first-chance fission keep their
 own File 6

A distribution in File 6 was replaced by that of MT=18 because there was
none in File 5.
---
 ASAPy/data/neutron.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index e341814..7c86742 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -787,11 +787,11 @@ class IncidentNeutron(EqualityMixin):
             pass
 
         # If first-chance, second-chance, etc. fission are present, check
-        # whether energy distributions were specified in MF=5. If not, copy the
-        # energy distribution from MT=18.
+        # whether energy distributions were specified in MF=5 or MF=6. If not,
+        # copy the energy distribution from MT=18.
         for mt, rx in data.reactions.items():
             if mt in (19, 20, 21, 38):
-                if (5, mt) not in ev.section:
+                if not rx.products[0].distribution:
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
-- 
2.43.0


From 8ca0a68fa55056919c4b2ab924346b9a5afc1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 097/103] fix: an angular distribution alone does not add a
 fission neutron

With File 4 but no File 5 for a partial fission reaction, whose spectrum
is that of MT=18, a second neutron without any distribution was added.
---
 ASAPy/data/reaction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index a3ecc31..b79c520 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -1174,8 +1174,9 @@ class Reaction(EqualityMixin):
                 for dist in neutron.distribution:
                     dist.angle = AngleDistribution.from_endf(ev, mt)
 
-            if mt in (18, 19, 20, 21, 38) and (5, mt) in ev.section:
-                # For fission reactions,
+            if mt in (18, 19, 20, 21, 38):
+                # For fission reactions, the neutron is already among the
+                # products. It has no distribution here if there is no File 5.
                 rx.products[0].applicability = neutron.applicability
                 rx.products[0].distribution = neutron.distribution
             else:
-- 
2.43.0


From 127e6cc44dd5fdb66d9356d1cdd3e85744c6d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 098/103] fix: partial fission with its own File 4 keeps these
 angles

The spectrum of MT=18 was taken together with the angles of MT=18.
---
 ASAPy/data/neutron.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 7c86742..022e16f 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -1,6 +1,7 @@
 import sys
 from collections import OrderedDict
 from collections.abc import Iterable, Mapping, MutableMapping
+from copy import deepcopy
 from io import StringIO
 from math import log10
 from numbers import Integral, Real
@@ -12,6 +13,7 @@ from warnings import warn
 import numpy as np
 import h5py
 
+from .angle_distribution import AngleDistribution
 from .ace import Library, Table, get_table, get_metadata
 from .data import ATOMIC_SYMBOL, K_BOLTZMANN, EV_PER_MEV
 from .endf import Evaluation, SUM_RULES, get_head_record, get_tab1_record
@@ -23,6 +25,7 @@ from .product import Product
 from .reaction import Reaction, _get_photon_products_ace
 from . import resonance as res
 from . import resonance_covariance as res_cov
+from .uncorrelated import UncorrelatedAngleEnergy
 from .urr import ProbabilityTables
 from . import checkvalue as cv
 from .mixin import EqualityMixin
@@ -795,6 +798,13 @@ class IncidentNeutron(EqualityMixin):
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
+                    if (4, mt) in ev.section:
+                        # The angular distribution is its own
+                        distribution = deepcopy(neutron.distribution)
+                        for dist in distribution:
+                            if isinstance(dist, UncorrelatedAngleEnergy):
+                                dist.angle = AngleDistribution.from_endf(ev, mt)
+                        rx.products[0].distribution = distribution
 
         # Read fission energy release (requires that we already know nu for
         # fission)
-- 
2.43.0


From c765b02bb8537dbc9d04b5af4aa55ef6af7305dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 099/103] fix: reactions read from ENDF have the frame of their
 distributions

The frame was always said to be the center of mass, also where File 4 or 6
says that the distributions are given in the laboratory system, and for
File 5, which always is.
---
 ASAPy/data/neutron.py  |  4 +++-
 ASAPy/data/reaction.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 022e16f..b0374e7 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -798,7 +798,9 @@ class IncidentNeutron(EqualityMixin):
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
-                    if (4, mt) in ev.section:
+                    if (4, mt) not in ev.section:
+                        rx.center_of_mass = data.reactions[18].center_of_mass
+                    else:
                         # The angular distribution is its own
                         distribution = deepcopy(neutron.distribution)
                         for dist in distribution:
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index b79c520..20a46ba 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -1135,6 +1135,11 @@ class Reaction(EqualityMixin):
                 else:
                     rx.products.append(product)
 
+            # Frame of the distributions: only LCT=1 is the laboratory for the
+            # emitted neutrons
+            items = get_head_record(StringIO(ev.section[6, mt]))
+            rx.center_of_mass = (items[3] != 1)
+
         elif (4, mt) in ev.section or (5, mt) in ev.section:
             # Uncorrelated angle-energy distribution
             neutron = Product('neutron')
@@ -1173,6 +1178,12 @@ class Reaction(EqualityMixin):
             if (4, mt) in ev.section:
                 for dist in neutron.distribution:
                     dist.angle = AngleDistribution.from_endf(ev, mt)
+                file_obj = StringIO(ev.section[4, mt])
+                get_head_record(file_obj)
+                rx.center_of_mass = (get_cont_record(file_obj)[3] == 2)
+            else:
+                # Distributions in File 5 are in the laboratory system
+                rx.center_of_mass = False
 
             if mt in (18, 19, 20, 21, 38):
                 # For fission reactions, the neutron is already among the
-- 
2.43.0


From 9f6aff63b2b0839b7c11754ed52c1f25f4a83aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 100/103] fix: data read from an ACE table are independent of
 the table

Cross sections, distributions and Compton profiles were views of the array
of the table: changing one changed the other, and negative cross sections
were set to zero in the table that was given.
---
 ASAPy/data/neutron.py | 3 ++-
 ASAPy/data/photon.py  | 3 ++-
 ASAPy/data/thermal.py | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index b0374e7..510c598 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -611,7 +611,8 @@ class IncidentNeutron(EqualityMixin):
 
         # First obtain the data for the first provided ACE table/file
         if isinstance(ace_or_filename, Table):
-            ace = ace_or_filename
+            # The data use parts of the table, which is the caller's
+            ace = deepcopy(ace_or_filename)
         else:
             ace = get_table(ace_or_filename)
 
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 2596d8a..d4fdb4d 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -441,7 +441,8 @@ class IncidentPhoton(EqualityMixin):
         """
         # First obtain the data for the first provided ACE table/file
         if isinstance(ace_or_filename, Table):
-            ace = ace_or_filename
+            # The data use parts of the table, which is the caller's
+            ace = deepcopy(ace_or_filename)
         else:
             ace = get_table(ace_or_filename)
 
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index f28c0ce..41cc2a0 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -1,4 +1,5 @@
 from collections.abc import Iterable
+from copy import deepcopy
 from difflib import get_close_matches
 from numbers import Real
 import itertools
@@ -472,7 +473,8 @@ class ThermalScattering(EqualityMixin):
 
         """
         if isinstance(ace_or_filename, Table):
-            ace = ace_or_filename
+            # The data use parts of the table, which is the caller's
+            ace = deepcopy(ace_or_filename)
         else:
             ace = get_table(ace_or_filename)
 
-- 
2.43.0


From 479b4e20b2994c27dba3a81ce98203e3ff0e12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 101/103] fix: reconstruction of resonances in any order or
 part of them

Penetration factors were stored by the label of a resonance, so parameters
that had been sorted got those of other resonances, and restricted ones
(also by subset() of a covariance range) failed with an IndexError.
---
 ASAPy/data/resonance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index b9b886e..6aa3fd5 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -404,7 +404,7 @@ class MultiLevelBreitWigner(ResonanceRange):
         return mlbw
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
@@ -666,7 +666,7 @@ class ReichMoore(ResonanceRange):
         return rm
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
-- 
2.43.0


From 05ad40a68a92e42ef78589c7371e1b4d0e8c1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 102/103] fix: values with the same uncertainty compare equal

The numbers of two decay data or fission yields read from the same file are
different random variables, so == of the objects was False.
---
 ASAPy/data/mixin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/mixin.py b/ASAPy/data/mixin.py
index 8b8b897..9b69808 100644
--- a/ASAPy/data/mixin.py
+++ b/ASAPy/data/mixin.py
@@ -3,6 +3,7 @@ from numbers import Integral
 from warnings import warn
 
 import numpy as np
+from uncertainties import UFloat
 
 from . import checkvalue as cv
 
@@ -13,6 +14,9 @@ def _equal(a, b):
         return a.keys() == b.keys() and all(_equal(a[key], b[key]) for key in a)
     if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
         return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
+    if isinstance(a, UFloat) and isinstance(b, UFloat):
+        return (a.nominal_value == b.nominal_value and
+                a.std_dev == b.std_dev)
     return np.array_equal(a, b)
 
 
-- 
2.43.0


From bab2ced238836443772f8ad3ef724db64782176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 103/103] fix: evaluations and resonance data compare by value

Neutron data read twice from an evaluation were not equal.
---
 ASAPy/data/endf.py                 |  3 ++-
 ASAPy/data/mixin.py                |  3 +++
 ASAPy/data/resonance.py            | 18 ++++++++++++++----
 ASAPy/data/resonance_covariance.py |  3 ++-
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 6bec831..cee059c 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -19,6 +19,7 @@ from numpy.polynomial.polynomial import Polynomial
 
 from .data import ATOMIC_SYMBOL, gnd_name
 from .function import Tabulated1D, INTERPOLATION_SCHEME
+from .mixin import EqualityMixin
 from .univariate import Uniform, Tabular, Legendre
 
 
@@ -361,7 +362,7 @@ def get_evaluations(filename):
     return evaluations
 
 
-class Evaluation(object):
+class Evaluation(EqualityMixin):
     """ENDF material evaluation with multiple files/sections
 
     Parameters
diff --git a/ASAPy/data/mixin.py b/ASAPy/data/mixin.py
index 9b69808..f3857b4 100644
--- a/ASAPy/data/mixin.py
+++ b/ASAPy/data/mixin.py
@@ -3,6 +3,7 @@ from numbers import Integral
 from warnings import warn
 
 import numpy as np
+import pandas as pd
 from uncertainties import UFloat
 
 from . import checkvalue as cv
@@ -17,6 +18,8 @@ def _equal(a, b):
     if isinstance(a, UFloat) and isinstance(b, UFloat):
         return (a.nominal_value == b.nominal_value and
                 a.std_dev == b.std_dev)
+    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
+        return a.equals(b)
     return np.array_equal(a, b)
 
 
diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 6aa3fd5..1303606 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -15,9 +15,10 @@ try:
 except ImportError:
     _reconstruct = False
 from . import checkvalue as cv
+from .mixin import EqualityMixin, _equal
 
 
-class Resonances(object):
+class Resonances(EqualityMixin):
     """Resolved and unresolved resonance data
 
     Parameters
@@ -119,7 +120,7 @@ class Resonances(object):
         return cls(ranges)
 
 
-class ResonanceRange(object):
+class ResonanceRange(EqualityMixin):
     """Resolved resonance range
 
     Parameters
@@ -171,6 +172,15 @@ class ResonanceRange(object):
         new_copy._parameter_matrix = {}
         return new_copy
 
+    def __eq__(self, other):
+        # What is prepared for the reconstruction follows from the rest
+        prepared = ('_prepared', '_parameter_matrix', '_l_values',
+                    '_competitive')
+        content = [{key: value for key, value in r.__dict__.items()
+                    if key not in prepared} for r in (self, other)
+                   if isinstance(r, type(self))]
+        return len(content) == 2 and _equal(*content)
+
     @classmethod
     def from_endf(cls, ev, file_obj, items):
         """Create resonance range from an ENDF evaluation.
@@ -871,7 +881,7 @@ class RMatrixLimited(ResonanceRange):
         return rml
 
 
-class ParticlePair(object):
+class ParticlePair(EqualityMixin):
     def __init__(self, first, second, q_value, penetrability,
                  shift, mt):
         self.first = first
@@ -882,7 +892,7 @@ class ParticlePair(object):
         self.mt = mt
 
 
-class SpinGroup(object):
+class SpinGroup(EqualityMixin):
     """Resonance spin group
 
     Attributes
diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 9958c4c..324215c 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -9,6 +9,7 @@ from scipy.linalg import block_diag
 
 from . import endf
 from . import checkvalue as cv
+from .mixin import EqualityMixin
 from .resonance import Resonances
 
 
@@ -136,7 +137,7 @@ class ResonanceCovariances(Resonances):
         return cls(ranges)
 
 
-class ResonanceCovarianceRange:
+class ResonanceCovarianceRange(EqualityMixin):
     """Resonace covariance range. Base class for different formalisms.
 
     Parameters
-- 
2.43.0

