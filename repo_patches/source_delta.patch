From 7aec38ec2e44dca6d79d0043518638af774f41e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 01/15] fix: reject transmission curves with any value above
 unity

load_transmission_curve tested the minimum instead of the maximum, so a curve
exceeding unity was silently clipped instead of raising ValueError.
---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From a649c6b9182b0f4f0c0a3243a8925ad6ce077f3a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 02/15] fix: treat drn literally when globbing for transmission
 curves

Only bn_pat is a pattern. A directory whose name contains glob characters such
as brackets was itself interpreted as a pattern and never matched.
---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 54a3d14..f0b2200 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -2,7 +2,7 @@
 
 import os
 import random
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -65,7 +65,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
                 )
                 raise ValueError(msg)
 
-        fn_pat = os.path.join(drn, bn_pat)
+        fn_pat = os.path.join(escape(drn), bn_pat)
         fn_list = glob(fn_pat)
         msg = "There is no filename with pattern {0} located in {1}"
         assert len(fn_list) != 0, msg.format(bn_pat, drn)
-- 
2.43.0


From 7c8ac7a2dc31958fdd0eaacdf9c9ccf07c432317 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 03/15] fix: virial_dynamical_time accepts a scalar redshift,
 as documented

---
 dsps/cosmology/flat_wcdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index 3afde86..c4775f9 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -323,7 +323,7 @@ _Om = jjit(vmap(_Om_at_z, in_axes=_A[:-1]))
 
 @jjit
 def _delta_vir(z, Om0, w0, wa):
-    x = _Om(z, Om0, w0, wa) - 1.0
+    x = _Om_at_z(z, Om0, w0, wa) - 1.0
     Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2
     return Delta
 
-- 
2.43.0


From 83817e662002eaee209a95808b0d0ab27dac7521 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 04/15] fix: export SSP data without emission lines

SSPData always has the ssp_emline_wave field, which is None for populations
without lines, so the script crashed on them.
---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From 09d0c21a8f8cd269fd394a2b01109ac67492b037 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 05/15] fix: blackbody accuracy in the Rayleigh-Jeans tail

exp(x) - 1 cancels for small x (returning inf below 1e-16) and overflows for
large x, where the gradient was nan.
---
 dsps/dust/blackbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 1df141a..16ec356 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -76,7 +76,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
     hnu = H_PLANCK * freq_hz
     kt = K_BOLTZ * temp_kelvin
     x = hnu / kt
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
@@ -115,7 +115,7 @@ def _wave_density_denom(wave_meters, temp_kelvin):
     hc = H_PLANCK * C_SPEED
     kt = K_BOLTZ * temp_kelvin
     x = hc / kt / wave_meters
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
-- 
2.43.0


From 93d771372745d841cbd7ee64ba34e8bbba1f255b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 06/15] fix: apply sfr_min to the SSP weights of the restframe
 SED

calc_rest_sed_* used sfr_min for the stellar mass but the default floor for the
age weights, so mass and weights described different histories.
---
 dsps/sed/ssp_weights.py | 7 +++++--
 dsps/sed/stellar_sed.py | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/ssp_weights.py b/dsps/sed/ssp_weights.py
index 8a6c9c1..00e1665 100644
--- a/dsps/sed/ssp_weights.py
+++ b/dsps/sed/ssp_weights.py
@@ -10,6 +10,7 @@ import typing
 from jax import jit as jjit
 from jax import numpy as jnp
 
+from ..constants import SFR_MIN
 from .metallicity_weights import (
     calc_lgmet_weights_from_lgmet_table,
     calc_lgmet_weights_from_lognormal_mdf,
@@ -37,6 +38,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated SFH and a lognormal MDF
 
@@ -78,7 +80,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
         gal_lgmet, gal_lgmet_scatter, ssp_lgmet
@@ -99,6 +101,7 @@ def calc_ssp_weights_sfh_table_met_table(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated star-formation and metallicity history
 
@@ -140,7 +143,7 @@ def calc_ssp_weights_sfh_table_met_table(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lgmet_table(
         gal_t_table,
diff --git a/dsps/sed/stellar_sed.py b/dsps/sed/stellar_sed.py
index 41aa983..8323c9c 100644
--- a/dsps/sed/stellar_sed.py
+++ b/dsps/sed/stellar_sed.py
@@ -111,6 +111,7 @@ def calc_rest_sed_sfh_table_lognormal_mdf(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
@@ -194,6 +195,7 @@ def calc_rest_sed_sfh_table_met_table(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
-- 
2.43.0


From 50776da4bed2b987e7c1b8fdc2a81dedea1c9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 07/15] fix: compute the default age of the universe in double
 precision

---
 dsps/cosmology/defaults.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsps/cosmology/defaults.py b/dsps/cosmology/defaults.py
index 9686a7a..bac2252 100644
--- a/dsps/cosmology/defaults.py
+++ b/dsps/cosmology/defaults.py
@@ -1,5 +1,9 @@
 # flake8: noqa
 """Globals storing defaults for various DSPS options"""
+import jax
+
+jax.config.update("jax_enable_x64", True)
+
 from .flat_wcdm import PLANCK15 as DEFAULT_COSMOLOGY
 
 
-- 
2.43.0


From fa90294231230ada939c647ff6a641a086daa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 08/15] fix: bin widths of grids of whole numbers given as
 integers

---
 dsps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/utils.py b/dsps/utils.py
index 640dd79..5126ce5 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros(t.shape, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0


From dfada1b96575d92df460390173e21baeb700e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 09/15] fix: birth times at ages given as integers

---
 dsps/sed/stellar_age_weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/sed/stellar_age_weights.py b/dsps/sed/stellar_age_weights.py
index fbcc040..4d6f185 100644
--- a/dsps/sed/stellar_age_weights.py
+++ b/dsps/sed/stellar_age_weights.py
@@ -119,7 +119,7 @@ def _get_linspace_time_tables(t0=TODAY):
 def _get_lgt_birth(t_obs, lg_ages):
     """Age of the universe in Gyr at the birth time
     of the stellar populations observed at t_obs"""
-    t_birth = t_obs - 10**lg_ages
+    t_birth = t_obs - 10.0**lg_ages
     t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
     lgt_birth = jnp.log10(t_birth)
     return lgt_birth
-- 
2.43.0


From 2554bcfa18e60742c1da6430612ff03cdc6bb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 10/15] fix: burst fraction of an integer lgfburst

---
 dsps/sfh/diffburst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sfh/diffburst.py b/dsps/sfh/diffburst.py
index 500ffbb..9200e3f 100644
--- a/dsps/sfh/diffburst.py
+++ b/dsps/sfh/diffburst.py
@@ -65,7 +65,7 @@ def calc_bursty_age_weights(burst_params, smooth_age_weights, ssp_lg_age_gyr):
         ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
     )
 
-    fb = 10**burst_params.lgfburst
+    fb = 10.0**burst_params.lgfburst
     age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights
 
     return age_weights
@@ -217,7 +217,7 @@ DEFAULT_BURST_U_PARAMS = BurstUParams(
 @jjit
 def _compute_bursty_age_weights_from_params(lgyr_since_burst, age_weights, params):
     lgfburst, lgyr_peak, lgyr_max = params
-    fburst = 10**lgfburst
+    fburst = 10.0**lgfburst
     burst_weights = _pureburst_age_weights_from_params(
         lgyr_since_burst, lgyr_peak, lgyr_max
     )
-- 
2.43.0


From 1880582be0c75d30fda65e56c2beadd8bd9f6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 11/15] fix: sigmoids of integer arguments

---
 dsps/imf/remnant_mass.py    | 2 +-
 dsps/imf/surviving_mstar.py | 4 ++--
 dsps/utils.py               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsps/imf/remnant_mass.py b/dsps/imf/remnant_mass.py
index 45be8ce..32c0038 100644
--- a/dsps/imf/remnant_mass.py
+++ b/dsps/imf/remnant_mass.py
@@ -48,6 +48,6 @@ def remnant_mass(
 
 @jjit
 def _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
diff --git a/dsps/imf/surviving_mstar.py b/dsps/imf/surviving_mstar.py
index 337bc5e..5d2b422 100644
--- a/dsps/imf/surviving_mstar.py
+++ b/dsps/imf/surviving_mstar.py
@@ -62,10 +62,10 @@ def surviving_mstar(
 
 @jjit
 def _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
 
-    k2 = 10**lgk2
+    k2 = 10.0**lgk2
     h = _sigmoid(lg_age_yr, f, k2, h, z)
     return h
diff --git a/dsps/utils.py b/dsps/utils.py
index 5126ce5..8dcd067 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -149,7 +149,7 @@ def _get_triweights_singlepoint(x, sig, bin_edges):
 @jjit
 def _sigmoid(x, x0, k, ylo, yhi):
     height_diff = yhi - ylo
-    return ylo + height_diff * nn.sigmoid(k * (x - x0))
+    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))
 
 
 @jjit
-- 
2.43.0


From 825d2e0ec6cbbf84aa77a29ff2592b08163f196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 12/15] fix: blackbody at frequencies given as integers

---
 dsps/dust/blackbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 16ec356..fb8e738 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -83,7 +83,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
 @jjit
 def _jax_bb_freq_density_exparg(freq_hz):
     lg_term1 = LG2 + LGH - 2 * LGC
-    lg_term2 = 3 * lax.log(freq_hz)
+    lg_term2 = 3 * lax.log(1.0 * freq_hz)
     exparg = lg_term1 + lg_term2
     return exparg
 
-- 
2.43.0


From 02541dc3f6a135757b824d170aa5b04ad3b3b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 13/15] fix: power laws of integer arguments

---
 dsps/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsps/utils.py b/dsps/utils.py
index 8dcd067..5fbda0b 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -211,6 +211,7 @@ def powerlaw_pdf(x, a, b, g):
         Value of the PDF for each powerlaw
 
     """
+    g = 1.0 * g
     ag, bg = a**g, b**g
     return g * x ** (g - 1) / (bg - ag)
 
@@ -240,6 +241,7 @@ def powerlaw_rvs(ran_key, a, b, g):
     """
     npts = a.shape[0]
     r = jran.uniform(ran_key, (npts,))
+    g = 1.0 * g
     ag, bg = a**g, b**g
     return (ag + (bg - ag) * r) ** (1.0 / g)
 
-- 
2.43.0


From e3eb2e9d9484ebff5a97dd1927a5cb03208eb6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 14/15] fix: legend of the mass-metallicity plot names the
 right curves

The curves of params are drawn solid and those of params2 dashed, but the
legend gave label2 to the solid and label1 to the dashed line style.
---
 dsps/metallicity/diagnostics/plot_mzr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/metallicity/diagnostics/plot_mzr.py b/dsps/metallicity/diagnostics/plot_mzr.py
index a32b765..6c43a61 100644
--- a/dsps/metallicity/diagnostics/plot_mzr.py
+++ b/dsps/metallicity/diagnostics/plot_mzr.py
@@ -115,8 +115,8 @@ def make_mzr_comparison_plot(
 
     red_line = mlines.Line2D([], [], ls="-", c=colors[0], label=r"${\rm z=3}$")
     blue_line = mlines.Line2D([], [], ls="-", c=colors[-1], label=r"${\rm z=0}$")
-    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label2)
-    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label1)
+    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label1)
+    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label2)
     black_star = mlines.Line2D(
         [],
         [],
-- 
2.43.0


From 181349f211c979ca81be8402c9ddc7869551bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:07 +0000
Subject: [PATCH 15/15] fix: reject transmission curves outside [0, 1] also
 when they contain NaN

---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index f0b2200..72beac2 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -78,9 +78,9 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
         wave = hdf["wave"][...]
         transmission = hdf["transmission"][...]
 
-        if transmission.min() < -TOL:
+        if np.any(transmission < -TOL):
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.max() > 1 + TOL:
+        elif np.any(transmission > 1 + TOL):
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0

