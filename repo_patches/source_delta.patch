From 724627a2637b0431f8486cc00f6d49214d312d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:44 +0000
Subject: [PATCH 01/71] fix: economic value of probability tables no longer
 fails on the removed numpy float alias

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From c3426ae94374e5626648a8b335cf74abdbf901e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:44 +0000
Subject: [PATCH 02/71] fix: order ROC points by threshold value instead of
 threshold text

---
 metcalcpy/util/ctc_statistics.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..d04eaa2 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -207,13 +207,9 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
 
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # the unique thresholds in the (ascending or descending) order of the sorted data
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
-- 
2.43.0


From 5f5ac2e55b306f576be9112953a7ff60842ff942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:44 +0000
Subject: [PATCH 03/71] fix: sorting by threshold no longer adds columns to the
 caller's data

---
 metcalcpy/util/ctc_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index d04eaa2..e3d6d83 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1007,6 +1007,9 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
     operators = []
     values = []
     text_strings = []
+
+    # the sorting columns are added to a copy, the caller's data stays as it is
+    input_dataframe = input_dataframe.copy()
     requested_thresh = input_dataframe[sort_column_name]
 
     for thresh in requested_thresh:
-- 
2.43.0


From fd895c57e5673c66513319f979f1d28e1ed09d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:14 +0000
Subject: [PATCH 04/71] fix: degenerate sums give a missing statistic instead
 of an exception

---
 metcalcpy/util/ctc_statistics.py    |  6 +++---
 metcalcpy/util/met_stats.py         |  2 +-
 metcalcpy/util/sal1l2_statistics.py |  2 +-
 metcalcpy/util/sl1l2_statistics.py  | 18 +++++++++---------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index e3d6d83..99c619b 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -358,7 +358,7 @@ def calculate_hk(input_data, columns_names):
         else:
             result = pody - pofd
             result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -448,7 +448,7 @@ def calculate_lodds(input_data, columns_names):
             return None
         v = np.log(fy_oy) + np.log(fn_on) - np.log(fy_on) - np.log(fn_oy)
         v = round_half_up(v, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         v = None
     warnings.filterwarnings('ignore')
     return v
@@ -517,7 +517,7 @@ def calculate_eclv(input_data, columns_names):
         common_cases_ind = pd.Series(eclv['cl']).isin(cl_pts)
         v = eclv['V'][common_cases_ind]
         v = round_half_up(v, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         v = None
     warnings.filterwarnings('ignore')
     return v
diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..f35d6fe 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -65,6 +65,6 @@ def calc_speed(u_comp, v_comp):
     """
     try:
         result = np.sqrt(u_comp * u_comp + v_comp * v_comp)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     return result
diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index 6a7913d..5c70c95 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -118,7 +118,7 @@ def calculate_rmsfa(input_data, columns_names, aggregation=False):
         else:
             result = np.sqrt(ffbar)
             result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..6e34860 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -93,7 +93,7 @@ def calculate_fstdev(input_data, columns_names, aggregation=False):
         ffbar = sum_column_data_by_name(input_data, columns_names, 'ffbar') / total1
         result = calculate_stddev(fbar * total, ffbar * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -123,7 +123,7 @@ def calculate_ostdev(input_data, columns_names, aggregation=False):
         oobar = sum_column_data_by_name(input_data, columns_names, 'oobar') / total1
         result = calculate_stddev(obar * total, oobar * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -371,7 +371,7 @@ def calculate_me2(input_data, columns_names, aggregation=False):
         me = calculate_me(input_data, columns_names, aggregation)
         result = me ** 2
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -399,7 +399,7 @@ def calculate_mse(input_data, columns_names, aggregation=False):
         fobar = sum_column_data_by_name(input_data, columns_names, 'fobar') / total
         result = ffbar + oobar - 2 * fobar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -528,7 +528,7 @@ def calculate_bcmse(input_data, columns_names, aggregation=False):
         me = calculate_me(input_data, columns_names, aggregation)
         result = mse - me ** 2
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 6980e3fbfaa065431ee6ab5940feef564d74d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:14 +0000
Subject: [PATCH 05/71] fix: the error standard deviation honours the
 aggregation flag

---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 6e34860..d814948 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From e4acdd12924b8a1ef7c289a918575fae73368c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 06/71] fix: the standard deviation of a single pair is missing
 instead of an exception

---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index d814948..03af237 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -571,7 +571,7 @@ def calculate_stddev(sum_total, sum_sq, n):
                 calculated STDDEV as float
                 or None if some of the data values are missing or invalid
     """
-    if n < 1:
+    if n <= 1:
         return None
     v = (sum_sq - sum_total * sum_total / n) / (n - 1)
     if v < 0:
-- 
2.43.0


From bbe78c743535108795227a2f29250ff7e21a98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:22 +0000
Subject: [PATCH 07/71] fix: wind directions are in degrees as documented

---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index f35d6fe..eb757fa 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From 44a2e5cd5d7fc2d4917ce7ebeffab611fc4a97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:25 +0000
Subject: [PATCH 08/71] fix: the wind direction error normalises the observed
 wind of aggregated sums by their total

---
 metcalcpy/util/vcnt_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..4287e44 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
-- 
2.43.0


From 0d135060ca7882fb3e98fd3b89023b710bb7b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:40 +0000
Subject: [PATCH 09/71] fix: Brier score, Brier skill score and resolution no
 longer fail on a scalar count

---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 563f1eabaadc743645c2df93869c43ea18695bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:58 +0000
Subject: [PATCH 10/71] fix: the ROC area is missing when there are no events
 or no non-events

---
 metcalcpy/util/pstd_statistics.py | 48 +++++++++++++++++--------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..9bca0f3 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -261,27 +261,33 @@ def calculate_pstd_roc_auc(input_data, columns_names):
     """
     warnings.filterwarnings('error')
 
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        if df_pct_perm['oy_i'].sum() == 0 or df_pct_perm['on_i'].sum() == 0:
+            # the curve is defined only when there are both events and non-events
+            raise ZeroDivisionError()
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From ef9b4ba02edf3e149d80f0d7c8d4336269deffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:42 +0000
Subject: [PATCH 11/71] fix: the spread plus observation error is aggregated
 from its own column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..26f5004 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -488,7 +488,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From 0761f4225ac308b57cb4164fd6dc1f58b45ebc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:42 +0000
Subject: [PATCH 12/71] fix: the neighborhood observed rate is weighted by the
 number of pairs

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 26f5004..2faed99 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -549,9 +549,11 @@ class AggStat:
         fss_den = (data_for_prepare['fbs'].values / (1.0 - data_for_prepare['fss'].values)) * total
 
         f_rate = total * data_for_prepare['f_rate'].values
+        o_rate = total * data_for_prepare['o_rate'].values
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = o_rate
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From 696f34188234574713fc5dcb2a3b07401ac6828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:57 +0000
Subject: [PATCH 13/71] fix: object count ratios select the matched and simple
 objects they are named for

---
 metcalcpy/util/mode_ratio_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 89c8090393751d86eec5640cbbd2bb463a23e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:57 +0000
Subject: [PATCH 14/71] fix: object-based CSI counts hits and object-based POD
 counts missed observations

---
 metcalcpy/util/mode_ratio_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 14b1cc8531f8de4317bc418e2908b4a1e9150d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:57 +0000
Subject: [PATCH 15/71] fix: object area ratios select the objects they are
 named for

---
 metcalcpy/util/mode_arearat_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..e8ce45d 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 4c213ce3a8a480a70a70d981689992eed9aa8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:57 +0000
Subject: [PATCH 16/71] fix: the object area false alarm ratio divides by hits
 plus false alarms

---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index e8ce45d..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
-- 
2.43.0


From aee3be74f2241b8553d50e39db57379d2f27dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:57 +0000
Subject: [PATCH 17/71] fix: three-dimensional volume ratios find their columns
 instead of always being missing

---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 03b141419136fc4b15fdd5bc82a1f3dfa58f4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:31 +0000
Subject: [PATCH 18/71] fix: the lag-1 coefficient is the least-squares slope
 for any mean of the series

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..a29f387 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1382,4 +1382,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 21f1b8229a18b05024999ae9cd5e6fd1d4378be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:40 +0000
Subject: [PATCH 19/71] fix: standard errors skip missing values and handle
 short, constant and linear series

---
 metcalcpy/util/utils.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index a29f387..403d0d9 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -862,16 +862,20 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    # use only valid values
+    data = [float(x) for x in data if x is not None and not np.isnan(x)]
+    variance = st.variance(data) if len(data) > 1 else 0.0
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0 and len(data) > 2:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        # An undefined coefficient or a perfect correlation can't be used.
+        if ar_1 is None:
+            ar_1 = 0.0
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else -1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -928,15 +932,12 @@ def compute_std_err_from_median_variance_inflation_factor(data):
 
         Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
-    data_without_non = []
-    for val in data:
-        if val is not None and not np.isnan(val):
-            data_without_non.append(val)
+    # use only valid values
+    data = [float(x) for x in data if x is not None and not np.isnan(x)]
     ratio_flag = 0
-    iqr = stats.iqr(data_without_non, interpolation='linear')
-    number_of_none = sum(x is None or np.isnan(x) for x in data)
+    iqr = stats.iqr(data, interpolation='linear')
 
-    if iqr > 0.0 and (len(data) - number_of_none) > 2:
+    if iqr > 0.0 and len(data) > 2:
         # Compute the first order auto-correlation coefficient
         # using a vector that is the same size as "data", but represents
         # represents excusions from the median of the data.
@@ -945,7 +946,10 @@ def compute_std_err_from_median_variance_inflation_factor(data):
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        # An undefined coefficient or a perfect correlation can't be used.
+        if ar_1 is None:
+            ar_1 = 0.0
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else -1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
@@ -959,7 +963,6 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
         std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
 
     else:
@@ -979,8 +982,8 @@ def compute_std_err_from_sum(data):
     """
     std_err = compute_std_err_from_mean(data)
 
-    # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    # multiply Standard Error by the number of valid values
+    return std_err[0] * std_err[3], std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
@@ -1382,4 +1385,7 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
+    # if all values but the last one are the same - the coefficient is undefined
+    if all(val == x_i[0] for val in x_i):
+        return None
     return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From ca6c365fd55f37dad17ae4e0289330aed400eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:17 +0000
Subject: [PATCH 20/71] fix: robust correlations of perfectly related data stay
 within [-1, 1]

---
 metcalcpy/util/correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..591370f 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -240,6 +240,9 @@ def corr(x, y, tail='two-sided', method='pearson', **kwargs):
     else:
         raise ValueError(f'Method "{method}" not recognized.')
 
+    # robust methods can exceed 1 by a rounding error
+    r = np.clip(r, -1, 1)
+
     if np.isnan(r):
         # Correlation failed -- new in version v0.3.4, instead of raising an
         # error we just return a dataframe full of NaN (except sample size).
-- 
2.43.0


From e07632600aa3516d27723582c7ecee981f6df88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:17 +0000
Subject: [PATCH 21/71] fix: the autocorrelation of constant or missing data is
 missing instead of an exception

---
 metcalcpy/util/correlation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 591370f..02e6fe1 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -314,7 +314,10 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     size = np.size(x)
 
     # calculate mean of the array excluding None
-    mean_val = mean(remove_none(x))
+    x_valid = remove_none(x)
+    if len(x_valid) == 0:
+        return None
+    mean_val = mean(map(float, x_valid))
 
     # calculate lag if not provided
     if lag_max is None:
@@ -327,7 +330,8 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
         if acf_type == 'covariance':
             acf_result.append(cov)
         elif acf_type == 'correlation':
-            acf_result.append(cov / cov_0)
+            # the correlation of a constant series is undefined
+            acf_result.append(cov / cov_0 if cov_0 != 0 else math.nan)
     return acf_result
 
 
-- 
2.43.0


From ca0ad4aee3e382bc23c179cd22decd62c7cbbf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:17 +0000
Subject: [PATCH 22/71] fix: the runs test is missing instead of an exception
 when it is undefined

---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 73c4a98..425e086 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value ': None,
+        'mean_value': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
@@ -52,10 +52,12 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         return result
 
     x = remove_none(x)
+    if len(x) == 0:
+        return result
     if threshold == 'median':
         x_threshold = median(x)
     elif threshold == "mean":
-        x_threshold = mean(x)
+        x_threshold = mean(map(float, x))
     else:
         print('ERROR  incorrect threshold')
         x_threshold = None
@@ -78,6 +80,9 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
+    # the test needs values on both sides of the threshold
+    if n1 == 0 or n2 == 0 or n == 2:
+        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
-- 
2.43.0


From acd8e5a4fece11ba2142db4d2974e326910409a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:22 +0000
Subject: [PATCH 23/71] fix: the equivalence test reports an outcome when a
 probability is zero

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 403d0d9..62d8ba2 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1226,7 +1226,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-- 
2.43.0


From 8056a07625cc89b685cc7179b11b92db70ecc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:22 +0000
Subject: [PATCH 24/71] fix: the equivalence test reports an outcome when the
 probability equals the level

---
 metcalcpy/util/tost_paired.py | 2 +-
 metcalcpy/util/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..707afb0 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -146,7 +146,7 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     if pttest <= alpha and ptost <= alpha:
         combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
+    if pttest <= alpha and ptost > alpha:
         combined_outcome = 'diff_no_eqv'
 
     if pttest > alpha and ptost <= alpha:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 62d8ba2..cb215b5 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1230,7 +1230,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest <= alpha and ptost > alpha:
             combined_outcome = 'diff_no_eqv'
 
         if pttest > alpha and ptost <= alpha:
-- 
2.43.0


From 2eab6125abace347c5f1eb1b93f94cfcf5efc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:22 +0000
Subject: [PATCH 25/71] fix: the equivalence test of perfectly correlated
 samples does not fail on rounding

---
 metcalcpy/util/tost_paired.py | 3 ++-
 metcalcpy/util/utils.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 707afb0..b1c6277 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -119,7 +119,8 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
         print("The correlation should be a value between -1 and 1.")
         sys.exit()
 
-    sdif = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
+    # the variance of the difference can't be negative except for rounding
+    sdif = math.sqrt(max(0.0, sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2))
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index cb215b5..2dd3b6e 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1195,7 +1195,8 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         print("The correlation should be a value between -1 and 1.")
         sys.exit()
 
-    sdif = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
+    # the variance of the difference can't be negative except for rounding
+    sdif = math.sqrt(max(0.0, sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2))
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
-- 
2.43.0


From 68a3dc4be17fdc6898de07ed96f99d31295dd307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:14 +0000
Subject: [PATCH 26/71] fix: the stand-alone equivalence test reports identical
 samples like the shared one

---
 metcalcpy/util/tost_paired.py | 67 ++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index b1c6277..e7bceff 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -124,19 +124,26 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
-    t = (m1 - m2) / se
     degree_f = n - 1
 
-    pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
-
-    t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
-    p1 = pt(t1, degree_f, lower_tail=False)
-    t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
-    p2 = pt(t2, degree_f, lower_tail=True)
+    if se != 0:
+        t = (m1 - m2) / se
+        pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
+        t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
+        p1 = pt(t1, degree_f, lower_tail=False)
+        t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
+        p2 = pt(t2, degree_f, lower_tail=True)
+        ptost = max(p1, p2)
+    else:
+        pttest = None
+        t1 = None
+        p1 = None
+        t2 = None
+        p2 = None
+        ptost = None
 
     ll90 = ((m1 - m2) - qt(1 - alpha, degree_f) * se)
     ul90 = ((m1 - m2) + qt(1 - alpha, degree_f) * se)
-    ptost = max(p1, p2)
 
     dif = (m1 - m2)
     ll95 = ((m1 - m2) - qt(1 - (alpha / 2), degree_f) * se)
@@ -144,32 +151,42 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest <= alpha and ptost <= alpha:
-        combined_outcome = 'diff_eqv'
+    if pttest is not None and ptost is not None:
+        if pttest <= alpha and ptost <= alpha:
+            combined_outcome = 'diff_eqv'
 
-    if pttest <= alpha and ptost > alpha:
-        combined_outcome = 'diff_no_eqv'
+        if pttest <= alpha and ptost > alpha:
+            combined_outcome = 'diff_no_eqv'
 
-    if pttest > alpha and ptost <= alpha:
-        combined_outcome = 'no_diff_eqv'
+        if pttest > alpha and ptost <= alpha:
+            combined_outcome = 'no_diff_eqv'
 
-    if pttest > alpha and ptost > alpha:
-        combined_outcome = 'no_diff_no_eqv'
+        if pttest > alpha and ptost > alpha:
+            combined_outcome = 'no_diff_no_eqv'
 
-    if pttest < alpha:
-        test_outcome = 'significant'
-    else:
-        test_outcome = 'non-significant'
+        if pttest < alpha:
+            test_outcome = 'significant'
+        else:
+            test_outcome = 'non-significant'
+
+        if ptost < alpha:
+            tost_outcome = 'significant'
+        else:
+            tost_outcome = 'non-significant'
 
-    if ptost < alpha:
-        tost_outcome = 'significant'
+        t = (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION))
+        p = (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION))
     else:
-        tost_outcome = 'non-significant'
+        combined_outcome = 'none'
+        tost_outcome = 'none'
+        test_outcome = 'none'
+        t = (None, None)
+        p = (None, None)
 
     return {
         'dif': round_half_up(dif, PRECISION),
-        't': (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION)),
-        'p': (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION)),
+        't': t,
+        'p': p,
         'degrees_of_freedom': round_half_up(degree_f, PRECISION),
         'ci_tost': (round_half_up(ll90, PRECISION), round_half_up(ul90, PRECISION) ),
         'ci_ttest': (round_half_up(ll95, PRECISION), round_half_up(ul95, PRECISION)),
-- 
2.43.0


From bf7a195c8398a42756be1369af7507586c50360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 27/71] fix: event equalization uses every series variable,
 integer series values and the series of both axes

---
 metcalcpy/util/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 2dd3b6e..0cbf80c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -696,6 +696,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if len(params['series_val_' + axis]) == 0:
                 series_data_for_ee = input_data
             else:
+                series_data_for_ee = input_data
                 for series_var, series_var_vals in params['series_val_' + axis].items():
                     # ungroup series value if needed
                     series_var_vals_no_group = []
@@ -703,11 +704,10 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                         split_val = re.findall(DATE_TIME_REGEX, val)
                         if len(split_val) == 0:
                             split_val = val.split(GROUP_SEPARATOR)
-                        series_var_vals_no_group.extend(split_val)
+                        series_var_vals_no_group.extend(int(v) if is_string_integer(v) else v for v in split_val)
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-                    series_data_for_ee = input_data
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
                             series_data_for_ee[series_var].isin(series_var_vals_no_group)]
@@ -790,9 +790,10 @@ def perform_event_equalization(params, input_data):
         all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
 
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
-        all_series = {**params['series_val_1'], **params['series_val_2']}
-        for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+        all_series = {}
+        for series_val in (params['series_val_1'], params['series_val_2']):
+            for key, vals in series_val.items():
+                all_series[key] = list(dict.fromkeys(all_series.get(key, []) + vals))
 
         # run EE on run event equalizer on Y1 and Y2
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-- 
2.43.0


From 841a5eb00602a3699ad760f438ac488969ab178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:24 +0000
Subject: [PATCH 28/71] fix: the equalization program uses every fixed value,
 the series of both axes and no row twice

---
 metcalcpy/agg_stat_event_equalize.py | 57 ++++++++++++----------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..6707cdd 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -34,13 +34,13 @@ How to use:
 import argparse
 import sys
 import itertools
+import re
 import pandas as pd
 import yaml
-import numpy as np
 import warnings
 
-from metcalcpy import GROUP_SEPARATOR
-from metcalcpy.event_equalize import event_equalize
+from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
+from metcalcpy.event_equalize import event_equalize, is_string_integer
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -74,12 +74,10 @@ class AggStatEventEqualize:
 
             # list all fixed variables
             if 'fixed_vars_vals_input' in self.params:
-                fix_vals_permuted_list = []
+                fix_vals_permuted = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
-
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
+                    fix_vals_permuted.append([item for sublist in vals_permuted for item in sublist])
 
             else:
                 fix_vals_permuted = []
@@ -95,15 +93,17 @@ class AggStatEventEqualize:
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 warnings.simplefilter(action='error', category=FutureWarning)
-                all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
+                all_ee_records = pd.concat([output_ee_data, output_ee_data_2])
+                # a row can be on both axes
+                all_ee_records = all_ee_records[~all_ee_records.index.duplicated()]
                 all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                for series_val in (self.params['series_val_1'], self.params['series_val_2']):
+                    for key, vals in series_val.items():
+                        all_series_vars[key] = list(dict.fromkeys(all_series_vars.get(key, []) + vals))
 
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
                                                 all_series_vars,
-                                                list(self.params['fixed_vars_vals_input'].keys()),
+                                                list(self.params.get('fixed_vars_vals_input', {})),
                                                 fix_vals_permuted, True,
                                                 False)
 
@@ -122,33 +122,26 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
+        # filter input data based on all series variables values
+        series_data_for_ee = self.input_data
         for series_var, series_var_vals in self.params['series_val_' + axis].items():
             # ungroup series value
             series_var_vals_no_group = []
             for val in series_var_vals:
-                split_val = val.split(GROUP_SEPARATOR)
-                series_var_vals_no_group.extend(split_val)
+                split_val = re.findall(DATE_TIME_REGEX, val)
+                if len(split_val) == 0:
+                    split_val = val.split(GROUP_SEPARATOR)
+                series_var_vals_no_group.extend(int(v) if is_string_integer(v) else v for v in split_val)
 
-            # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+            series_data_for_ee = series_data_for_ee[
+                series_data_for_ee[series_var].isin(series_var_vals_no_group)
             ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                warnings.simplefilter(action="error", category=FutureWarning)
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
-        return output_ee_data
+        # perform EE on filtered data
+        return event_equalize(series_data_for_ee, self.params['indy_var'],
+                              self.params['series_val_' + axis],
+                              list(self.params.get('fixed_vars_vals_input', {})),
+                              fix_vals_permuted, True, False)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From f3ddafb7aecb417febe75ad9a79c2964fccbb2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:45 +0000
Subject: [PATCH 29/71] fix: equalizing against stored cases uses every series
 variable together and integer series values

---
 metcalcpy/agg_stat_eqz.py | 61 +++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..a8c0be2 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -34,13 +34,14 @@ How to use:
 import argparse
 import sys
 import logging
+import re
 import pandas as pd
 import yaml
 import warnings
 
-from metcalcpy import GROUP_SEPARATOR
+from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import parse_bool, is_string_integer
 
 
 class AggStatEventEqz:
@@ -108,39 +109,37 @@ class AggStatEventEqz:
         warnings.filterwarnings('error')
 
         output_ee_data = pd.DataFrame()
-        for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
+        for fcst_var in self.params['fcst_var_val_' + axis]:
+            # filter input data and previous cases based on fcst_var and all series variables values
+            series_data_for_ee = self.input_data[self.input_data['fcst_var'] == fcst_var]
+            series_data_for_prev_cases = prev_cases[prev_cases['fcst_var'] == fcst_var]
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
 
                 series_var_vals_no_group = []
                 for val in series_var_vals:
-                    split_val = val.split(GROUP_SEPARATOR)
-                    series_var_vals_no_group.extend(split_val)
-
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                    split_val = re.findall(DATE_TIME_REGEX, val)
+                    if len(split_val) == 0:
+                        split_val = val.split(GROUP_SEPARATOR)
+                    series_var_vals_no_group.extend(int(v) if is_string_integer(v) else v for v in split_val)
+
+                series_data_for_ee = series_data_for_ee[
+                    series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                series_data_for_prev_cases = series_data_for_prev_cases[
+                    series_data_for_prev_cases[series_var].isin(series_var_vals_no_group)]
+
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            elif not series_data_after_ee.empty:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
-- 
2.43.0


From f8b92ec039bf4c4fd64e769633c2288dc6e46e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:17 +0000
Subject: [PATCH 30/71] fix: aggregated fractional error and mean wind speeds
 are weighted by the number of pairs

---
 metcalcpy/agg_stat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2faed99..f03313d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -136,6 +136,7 @@ class AggStat:
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
         'rmsfa': ['ffabar'],
         'rmsoa': ['ooabar'],
+        'fe': ['fbar', 'obar'],
         'me': ['fbar', 'obar'],
         'me2': ['fbar', 'obar'],
         'mse': ['ffbar', 'oobar', 'fobar'],
@@ -179,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From 25535be8817df4e7861d62367d74c2eb5b7ecc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:21 +0000
Subject: [PATCH 31/71] fix: the sample climatology of a probability score
 comes from the rows of its own point

---
 metcalcpy/agg_stat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index f03313d..31a32d7 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1060,7 +1060,9 @@ class AggStat:
                     point_data = self.input_data.loc[mask]
 
                     if self.params['line_type'] == 'pct':
-                        if all_filters_pct:
+                        if self.params['indy_var'] != 'thresh_i':
+                            point_data_pct = point_data
+                        elif all_filters_pct:
                             mask_pct = np.array(all_filters_pct).all(axis=0)
                             point_data_pct = self.input_data.loc[mask_pct]
                         else:
@@ -1075,7 +1077,7 @@ class AggStat:
                         sum_n_i_orig_T = point_data_pct[filter_on_i].values.sum() + oy_total
 
                         # calculate o_bar
-                        o_bar = oy_total / sum_n_i_orig_T
+                        o_bar = oy_total / sum_n_i_orig_T if sum_n_i_orig_T else None
 
                         point_data.insert(len(point_data.columns), 'T', sum_n_i_orig_T)
                         point_data.insert(len(point_data.columns), 'oy_total', oy_total)
-- 
2.43.0


From c40b0f6616500c7f93cd2b2732f67b45fb0f7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:15 +0000
Subject: [PATCH 32/71] Restore the original runs test module

---
 metcalcpy/util/wald_wolfowitz_runs_test.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/wald_wolfowitz_runs_test.py b/metcalcpy/util/wald_wolfowitz_runs_test.py
index 425e086..73c4a98 100644
--- a/metcalcpy/util/wald_wolfowitz_runs_test.py
+++ b/metcalcpy/util/wald_wolfowitz_runs_test.py
@@ -42,7 +42,7 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         'statistic': None,
         'p_value': None,
         'runs': None,
-        'mean_value': None,
+        'mean_value ': None,
         'variance': None
     }
     if alternative != "two.sided" and alternative != "left.sided" and alternative != "right.sided":
@@ -52,12 +52,10 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         return result
 
     x = remove_none(x)
-    if len(x) == 0:
-        return result
     if threshold == 'median':
         x_threshold = median(x)
     elif threshold == "mean":
-        x_threshold = mean(map(float, x))
+        x_threshold = mean(x)
     else:
         print('ERROR  incorrect threshold')
         x_threshold = None
@@ -80,9 +78,6 @@ def runs_test(x, alternative="two.sided", threshold='median') -> dict:
         elif run[0] == -1:
             r2 += 1
     n = n1 + n2
-    # the test needs values on both sides of the threshold
-    if n1 == 0 or n2 == 0 or n == 2:
-        return result
     mean_value = 1 + 2 * n1 * n2 / (n1 + n2)
     variance = 2 * n1 * n2 * (2 * n1 * n2 - n1 - n2) / (n * n * (n - 1))
     rr = r1 + r2
-- 
2.43.0


From f3808471d61c53d66bd50df5b4b46693919cf86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:39 +0000
Subject: [PATCH 33/71] fix: the runs probability of a revision series without
 values on both sides of its median is missing instead of an exception

---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 0cbf80c..339b5be 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1328,7 +1328,11 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    try:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    except ZeroDivisionError:
+        # the test needs values on both sides of the median
+        p_value = None
     if p_value is not None:
         result['ww_run'] = round(p_value, 2)
 
-- 
2.43.0


From f320b21e2e7d9d06e1a6dc803f3e2cf15b083d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:54 +0000
Subject: [PATCH 34/71] fix: pivotal intervals work when some resampled
 statistics are missing and for economic value curves; no interval instead of
 an exception when all are missing

---
 metcalcpy/bootstrap.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..9d72de0 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -326,9 +326,13 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
         ci_method = "None"
 
     if ci_method == 'pivotal':
-        low = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (1 - alpha / 2.))
+        bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
+        low = None
+        high = None
+        if bd.size > 0:
+            low = 2 * stat_val - _np.percentile(bd, 100 * (1 - alpha / 2.))
+            high = 2 * stat_val - _np.percentile(bd, 100 * (alpha / 2.))
         val = stat_val
-        high = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (alpha / 2.))
     elif ci_method == 'perc':
         # check if All values of bootstrap_dist are equal and if YES -
         # display a warning and do not calculate CIs - like boot.ci in R
@@ -376,8 +380,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
         for dist_member in bd:
             all_values.append(dist_member['V'].tolist())
 
-        all_values_np = _np.array(all_values)
         steps_len = len(stat_val['cl'])
+        all_values_np = _np.array(all_values).reshape(-1, steps_len)
         none_in_values = len(stat_val['V']) != sum(x is not None for x in stat_val['V'])
         stat_btcl = [None] * steps_len
         stat_btcu = [None] * steps_len
@@ -387,12 +391,13 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
             high = None
             column = all_values_np[:, ind]
             if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
+                if column.size > 0:
+                    low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                    high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
             elif ci_method == 'perc':
                 if _all_the_same(column):
-                    print(f'All values of t are equal to {column[0]}. Cannot calculate confidence intervals')
+                    print(f'All values of t are equal to {column[:1]}. Cannot calculate confidence intervals')
                     low = None
                     high = None
                 else:
@@ -519,7 +524,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From 366f4f87da16afef8cfb28c1219fe6df4fb29a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:42 +0000
Subject: [PATCH 35/71] fix: the aggregation programs compute intervals at the
 requested confidence level instead of always 95 per cent

---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..91c81bb 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -177,6 +177,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params.get('alpha', 0.05),
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 31a32d7..9e49dce 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -834,6 +834,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..5547e9d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05))
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From ac1b35cadb4f338bad2182ab66da86f4dccba717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:41 +0000
Subject: [PATCH 36/71] fix: economic value aggregation adds the base rate when
 asked, and handles series without data, undefined values and no series
 variables

---
 metcalcpy/agg_eclv.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 91c81bb..69a63cc 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -79,13 +79,14 @@ class AggEclv:
         self.current_thresh = None
         self.params = in_params
         self.steps = np.arange(self.params['cl_step'], 1, self.params['cl_step'])
+        self.current_steps = self.steps
         self.column_names = np.array(self.LINE_TYPE_COLUMNS[self.params['line_type']])
 
         if 'add_base_rate' in self.params.keys():
             self.add_base_rate = self.params['add_base_rate']
         else:
             self.add_base_rate = 0
-        if self.add_base_rate != 0 or self.add_base_rate != 1:
+        if self.add_base_rate != 0 and self.add_base_rate != 1:
             self.add_base_rate = 0
 
         try:
@@ -119,13 +120,17 @@ class AggEclv:
             stat_values = [
                 calculate_eclv(values, self.column_names, self.current_thresh, self.params['line_type'], self.steps,
                                self.add_base_rate)]
+            # the resamples are evaluated at the same points, including the base rate if it was added
+            if stat_values[0] is not None:
+                self.current_steps = stat_values[0]['cl']
 
         elif values is not None and values.ndim == 3:
             # bootstrapped case
             stat_values = []
             for row in values:
                 stat_value = [
-                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps)]
+                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'],
+                                   self.current_steps)]
                 stat_values.append(stat_value)
 
         else:
@@ -141,11 +146,12 @@ class AggEclv:
 
         """
 
-        # if the data frame is empty - do nothing and return an empty object
+        # if the data frame is empty - do nothing and return empty objects
         if series_data.empty:
-            return BootstrapResults(lower_bound=None,
-                                    value=None,
-                                    upper_bound=None)
+            return {ind: BootstrapResults(lower_bound=None,
+                                          value=None,
+                                          upper_bound=None)
+                    for ind in range(len(thresholds))}
 
         data = series_data[self.column_names].to_numpy()
         boot_stat_thresh = {}
@@ -236,7 +242,7 @@ class AggEclv:
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
-                out_frame_local[field] = [filter_value] * (len(self.steps))
+                out_frame_local[field] = [filter_value] * (len(self.steps) + self.add_base_rate)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
@@ -246,8 +252,11 @@ class AggEclv:
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
             # use numpy to select the rows where any record evaluates to True
-            mask = np.array(all_filters).all(axis=0)
-            point_data = self.input_data.loc[mask]
+            if all_filters:
+                mask = np.array(all_filters).all(axis=0)
+                point_data = self.input_data.loc[mask]
+            else:
+                point_data = self.input_data
 
             # calculate bootstrap results
             if 'thresh_i' in point_data.columns:
@@ -260,8 +269,13 @@ class AggEclv:
 
             for thresh_ind, thresh in enumerate(thresholds):
                 out_frame_local['thresh_i'] = [thresh] * (len(self.steps) + self.add_base_rate)
-                out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
-                out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                if bootstrap_results[thresh_ind].value is not None:
+                    out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
+                    out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                else:
+                    # the economic value (and the base rate) is undefined
+                    out_frame_local['x_pnt_i'] = self.steps.tolist() + [None] * self.add_base_rate
+                    out_frame_local['y_pnt_i'] = None
                 out_frame_local['nstats'] = [len(point_data)] * (len(self.steps) + self.add_base_rate)
                 if self.params['num_iterations'] > 1:
                     out_frame_local['stat_btcu'] = bootstrap_results[thresh_ind].upper_bound
-- 
2.43.0


From be85435c5b1ce39b2724430e2b81ad08fe9c43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:43 +0000
Subject: [PATCH 37/71] fix: object aggregation writes every statistic to its
 own row, handles grouped and numeric series values, filters by variable,
 resamples the cases of the point and works with event equalization

---
 metcalcpy/agg_stat_bootstrap.py | 27 ++++++++++++++++-----------
 metcalcpy/agg_stat_eqz.py       |  1 +
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 5547e9d..09f4b44 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,7 +118,6 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
@@ -139,6 +138,7 @@ class AggStatBootstrap:
 
                 all_points = list(itertools.product(*all_fields_values.values()))
 
+                cases = []
                 for point in all_points:
                     all_filters = []
                     for field_ind, field in enumerate(all_fields_values.keys()):
@@ -192,7 +192,11 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
@@ -209,11 +213,11 @@ class AggStatBootstrap:
                         index = rows_with_mask_indy_var.index[0]
 
                         # save results to the output data frame
-                        out_frame['fcst_var'][index] = fcst_var
-                        out_frame['stat_value'][index] = bootstrap_results.value
-                        out_frame['stat_btcl'][index] = bootstrap_results.lower_bound
-                        out_frame['stat_btcu'][index] = bootstrap_results.upper_bound
-                        out_frame['nstats'][index] = n_stats
+                        out_frame.loc[index, 'fcst_var'] = fcst_var
+                        out_frame.loc[index, 'stat_value'] = bootstrap_results.value
+                        out_frame.loc[index, 'stat_btcl'] = bootstrap_results.lower_bound
+                        out_frame.loc[index, 'stat_btcu'] = bootstrap_results.upper_bound
+                        out_frame.loc[index, 'nstats'] = n_stats
         else:
             out_frame = pd.DataFrame()
         return out_frame
@@ -268,7 +272,7 @@ class AggStatBootstrap:
             stat_values = []
             for row in cases:
                 values_ind = self.series_data['case'].isin(row.flatten())
-                values = self.series_data[values_ind]
+                values = self.series_data[values_ind].to_numpy()
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
@@ -288,9 +292,10 @@ class AggStatBootstrap:
                 self._perform_event_equalization()
 
             # build the case information for each record
-            fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
-            indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
-            self.input_data['case'] = fcst_valid + '#' + indy_var
+            if not self.input_data.empty:
+                fcst_valid = self.input_data.loc[:, 'fcst_valid'].astype(str)
+                indy_var = self.input_data.loc[:, self.params['indy_var']].astype(str)
+                self.input_data['case'] = fcst_valid + '#' + indy_var
 
             # get results for axis1
             out_frame = self._proceed_with_axis("1")
diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index a8c0be2..d512cfe 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -100,6 +100,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From bbc86a2dd64dfd206ecca416729819c0790a602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:38 +0000
Subject: [PATCH 38/71] fix: derived curves use the named operand series, group
 names and date independent values

---
 metcalcpy/agg_stat.py | 72 +++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 9e49dce..7ca5ebd 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -610,6 +610,31 @@ class AggStat:
                 data_for_prepare: a 2d numpy array of values we want to calculate the statistic on
         """
 
+    def _get_operand_values(self, component, series, axis="1"):
+        """ Completes the values of one operand of the derived series
+            with the values of the derived point.
+            Args:
+                component: list of the operand's own values
+                series: derived point: values of the series variables,
+                    indy val and statistic
+                axis: axis of the series
+
+            Returns:
+                list of values with the group names replaced by the group values
+
+        """
+        # replace group names with values
+        result = [self.group_to_value.get(value, value) for value in component]
+
+        all_series_vals = list(self.params['series_val_' + axis].values())
+        for ind, series_comp in enumerate(series):
+            # keep the operand's own value of the series variable
+            if ind < len(all_series_vals) and intersection(all_series_vals[ind], result):
+                continue
+            if series_comp not in result:
+                result.append(series_comp)
+        return result
+
     def _get_bootstrapped_stats_for_derived(self, series, distributions, axis="1"):
         """ Calculates aggregation derived statistic value and CI intervals if needed for input data
             Args:
@@ -634,25 +659,10 @@ class AggStat:
                     break
         # find all components for the 1st and 2nd series
         derived_curve_component = self.derived_name_to_values[derived_name]
-        permute_for_first_series = derived_curve_component.first_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_first_series:
-                permute_for_first_series.append(series_comp)
-
-        # replace first_series components group names to values
-        for i, perm in enumerate(permute_for_first_series):
-            if perm in self.group_to_value:
-                permute_for_first_series[i] = self.group_to_value[perm]
-
-        permute_for_second_series = derived_curve_component.second_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_second_series:
-                permute_for_second_series.append(series_comp)
-
-        # replace second_series components group names to values
-        for i, perm in enumerate(permute_for_second_series):
-            if perm in self.group_to_value:
-                permute_for_second_series[i] = self.group_to_value[perm]
+        permute_for_first_series = self._get_operand_values(
+            derived_curve_component.first_component, series, axis)
+        permute_for_second_series = self._get_operand_values(
+            derived_curve_component.second_component, series, axis)
 
         ds_1 = None
         ds_2 = None
@@ -678,10 +688,16 @@ class AggStat:
         num_diff_vals_first = 0
         num_diff_vals_second = 0
         for val in permute_for_first_series:
+            # dates have the group separator in them but always are different cases
+            if re.search(DATE_TIME_REGEX, val):
+                continue
             size = len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_first = num_diff_vals_first + size
         for val in permute_for_second_series:
+            # dates have the group separator in them but always are different cases
+            if re.search(DATE_TIME_REGEX, val):
+                continue
             size = len(val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_second = num_diff_vals_second + size
@@ -753,7 +769,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
-                    alpha=self.params['alpha'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=False,
                     save_distributions=derived_curve_component.derived_operation == 'DIFF_SIG',
                     block_length=block_length)
@@ -934,11 +950,15 @@ class AggStat:
 
             # series 2 components
             ds_2 = derived_serie[1].split(' ')
+            # replace group names with values
+            ds_1_vals = [self.group_to_value.get(value, value) for value in ds_1]
+            ds_2_vals = [self.group_to_value.get(value, value) for value in ds_2]
+
             # find a variable of the operation by comparing values in each derived series component
             series_var_vals = ()
-            for ind, name in enumerate(ds_1):
-                if name != ds_2[ind]:
-                    series_var_vals = (name, ds_2[ind])
+            for name, other_name in zip(ds_1_vals, ds_2_vals):
+                if name != other_name:
+                    series_var_vals = (name, other_name)
                     break
 
             series_var = list(series_val.keys())[-1]
@@ -953,9 +973,9 @@ class AggStat:
 
             for var in series_val.keys():
                 if derived_val[var] is not None \
-                        and intersection(derived_val[var], ds_1) \
-                        == intersection(derived_val[var], ds_1):
-                    derived_val[var] = intersection(derived_val[var], ds_1)
+                        and intersection(derived_val[var], ds_1_vals) \
+                        == intersection(derived_val[var], ds_1_vals):
+                    derived_val[var] = intersection(derived_val[var], ds_1_vals)
 
             derived_curve_name = get_derived_curve_name(derived_serie)
             derived_val[series_var] = [derived_curve_name]
-- 
2.43.0


From c3b846c7fb059996dfd0f3feb6c38ab71258505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:35 +0000
Subject: [PATCH 39/71] fix: combining rows of field values keeps the
 statistics apart, adds up counts and handles all supported line types,
 numeric values and incomplete tables

---
 metcalcpy/util/utils.py | 194 ++++++++++++++++++----------------------
 1 file changed, 85 insertions(+), 109 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 339b5be..c0cc817 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -472,94 +472,49 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
 
     warnings.filterwarnings('error')
 
-    # get unique values for valid date/time and lead time
-    unique_valid = input_data_frame.fcst_valid_beg.unique()
-    unique_lead = input_data_frame.fcst_lead.unique()
-
     for series_var, series_vals in series_var_val.items():
+        # rows are aggregated by valid and lead times and by statistic
+        by_fields = [field for field in ('fcst_valid_beg', 'fcst_lead', 'stat_name')
+                     if field != series_var and field in input_data_frame.columns]
+
         for series_val in series_vals:
             if ';' in series_val:
                 # found the aggregated field
-                single_values = series_val.split(';')
-
-                # for each valid
-                for valid in unique_valid:
-                    if series_var != 'fcst_lead':
-                        for lead in unique_lead:
-                            # find rows for the aggregation and their indexes
-                            rows_for_agg = input_data_frame[
-                                (input_data_frame.fcst_valid_beg == valid)
-                                & (input_data_frame.fcst_lead == lead)
-                                & (input_data_frame[series_var].isin(single_values))
-                                ]
-                            rows_indexes = rows_for_agg.index.values
-                            # reset indexes
-                            rows_for_agg.reset_index(inplace=True, drop=True)
-
-                            # remove these rows from the main data_frame
-                            input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                            aggregated_result = calc_series_sums(rows_for_agg, line_type)
-
-                            # record the result as a first row in the old selection
-                            for field in input_data_frame.columns:
-                                if field in aggregated_result.columns.values:
-                                    rows_for_agg.at[0, field] = aggregated_result[field][0]
-
-                            # replace the aggregated field name
-                            rows_for_agg.at[0, series_var] = series_val
-
-                            # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
-
+                single_values = []
+                for val in series_val.split(';'):
+                    if is_string_integer(val):
+                        single_values.extend([val, int(val)])
+                    elif is_string_strictly_float(val):
+                        single_values.extend([val, float(val)])
+                    elif val != '':
+                        single_values.append(val)
+
+                # find rows for the aggregation
+                is_for_agg = input_data_frame[series_var].isin(single_values)
+                result = [input_data_frame[~is_for_agg]]
+
+                for _, rows_for_agg in input_data_frame[is_for_agg].groupby(by_fields, sort=False,
+                                                                            dropna=False):
+                    aggregated_result = calc_series_sums(rows_for_agg, line_type)
+
+                    # record the result as a first row in the old selection
+                    aggregated_row = rows_for_agg.iloc[:1].copy()
+                    for field in input_data_frame.columns:
+                        if field in aggregated_result.columns.values:
+                            aggregated_row[field] = [aggregated_result[field][0]]
+
+                    # replace the aggregated field name, the lead time has to be a number
+                    if series_var == 'fcst_lead':
+                        aggregated_row[series_var] = [int(series_val.split(';')[0])]
                     else:
-                        # if the aggregated field is 'fcst_lead'
-
-                        # pandas treats the fcst_lead values as dtype int64, therefore convert
-                        # the single_values to int type so the pd.isin() properly matches
-                        # the input_data_frame[series_var].
-                        single_values_int = []
-                        for val in single_values:
-                            if val != '':
-                                single_values_int.append((int(val)))
-
-                        # find rows for the aggregation and their indexes
-                        rows_for_agg = input_data_frame[
-                            (input_data_frame.fcst_valid_beg == valid)
-                            & (input_data_frame[series_var].isin(single_values_int))
-                            ]
-
-                        rows_indexes = rows_for_agg.index.values
-
-                        # reset indexes
-                        rows_for_agg.reset_index(inplace=True, drop=True)
-
-                        # remove these rows from the main data_frame
-                        input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                        aggregated_result = calc_series_sums(rows_for_agg, line_type)
+                        aggregated_row[series_var] = [series_val]
 
-                        # record the result as a first row in the old selection
-                        for field in input_data_frame.columns:
-                            if field in aggregated_result.columns.values:
-                                rows_for_agg.at[0, field] = aggregated_result[field][0]
+                    # add it to the result
+                    result.append(aggregated_row)
 
-                        # replace the aggregated field name
-
-                        # some versions of pandas will generate an error when assigning a numerical value with a ';'
-                        # strip off the ';' to make this "version-independent"
-                        if ';' in series_val:
-                            sep_val = series_val.split(';')
-
-                        # different versions of pandas may generate a SettingWithCopy Warning
-                        # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
-                        try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
-                        except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
-
-                        # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                result = [data for data in result if not data.empty]
+                if result:
+                    input_data_frame = pd.concat(result, ignore_index=True)
 
     return input_data_frame
 
@@ -582,30 +537,35 @@ def calc_series_sums(input_df, line_type):
     total = sum_column_data_by_name(input_df.to_numpy(), input_df.columns, 'total')
     sums_data_frame['total'] = [total]
 
+    def weighted_mean(values):
+        return np.nansum(values * input_df.total.astype(float)) / total
+
+    def skill_score(score, reference):
+        if not reference:
+            return np.nan
+        return 1.0 - score / reference
+
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+        if 'mae' in input_df.columns:
+            column_names.append('mae')
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
+        # the columns can have sl1l2 names
+        for column in ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar',
+                       'fbar', 'obar', 'fobar', 'ffbar', 'oobar']:
+            if column in input_df.columns:
+                sums_data_frame[column] = [weighted_mean(input_df[column])]
 
     elif line_type == 'vl1l2':
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
@@ -626,7 +586,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
@@ -646,25 +606,41 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['o_rate'] = [dbl_o_rate]
 
     elif line_type == 'ecnt':
-        mse = input_df['rmse'] * input_df['rmse']
-        mse_oerr = input_df['rmse_oerr'] * input_df['rmse_oerr']
         crps_climo = input_df['crps'] / (1 - input_df['crpss'])
-
-        sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
-        sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
-        sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        sums_data_frame['crps_climo'] = [weighted_mean(crps_climo)]
+        column_names = ['me', 'crps', 'ign', 'me_oerr', 'mae', 'mae_oerr', 'spread_md',
+                        'crpscl', 'crps_emp', 'crpscl_emp', 'crps_emp_fair']
         for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
+            if column in input_df.columns:
+                sums_data_frame[column] = [weighted_mean(input_df[column])]
+
+        # errors and spreads are aggregated as mean squares
+        for column, square in (('rmse', 'mse'), ('rmse_oerr', 'mse_oerr'),
+                               ('spread', 'variance'), ('spread_oerr', 'variance_oerr'),
+                               ('spread_plus_oerr', 'variance_plus_oerr')):
+            sums_data_frame[square] = [weighted_mean(input_df[column] * input_df[column])]
+            sums_data_frame[column] = [np.sqrt(sums_data_frame[square][0])]
+
+        sums_data_frame['crpss'] = [skill_score(sums_data_frame['crps'][0],
+                                                sums_data_frame['crps_climo'][0])]
+        if 'crps_emp' in sums_data_frame.columns and 'crpscl_emp' in sums_data_frame.columns:
+            sums_data_frame['crpss_emp'] = [skill_score(sums_data_frame['crps_emp'][0],
+                                                        sums_data_frame['crpscl_emp'][0])]
+
+        # the bias of members on one side of the observation is weighted by their number
+        for column, number in (('me_ge_obs', 'n_ge_obs'), ('me_lt_obs', 'n_lt_obs')):
+            if column in input_df.columns and number in input_df.columns:
+                number_sum = np.nansum(input_df[number].astype(float))
+                sums_data_frame[number] = [number_sum]
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df[number])
+                                           / number_sum if number_sum else np.nan]
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
-        sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
-                                  / total]
-        sums_data_frame['rps_comp'] = [np.nansum(input_df["rps_comp"] * input_df.total.astype(float))
-                                       / total]
-        sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
-                                        / total]
+        sums_data_frame['rps'] = [weighted_mean(input_df["rps"])]
+        sums_data_frame['rps_comp'] = [weighted_mean(input_df["rps_comp"])]
+        sums_data_frame['rps_climo'] = [weighted_mean(d_rps_climo)]
+        sums_data_frame['rpss'] = [skill_score(sums_data_frame['rps'][0],
+                                               sums_data_frame['rps_climo'][0])]
 
     return sums_data_frame
 
-- 
2.43.0


From 4ec16cbc912dce39828900bc18ea8d30619e88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:11 +0000
Subject: [PATCH 40/71] fix: the summary combines rows for field values joined
 by a semicolon and computes anomaly, ensemble, neighborhood and ranked
 probability statistics from the row

---
 metcalcpy/agg_stat.py |  2 +-
 metcalcpy/sum_stat.py | 63 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 7ca5ebd..44e9ef5 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1110,7 +1110,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..961d696 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -45,6 +45,7 @@ from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
 from metcalcpy.util.vl1l2_statistics import *
@@ -107,7 +108,8 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar",
+                                      "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -127,14 +129,12 @@ class SumStat:
         try:
             fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
 
-            # change names for sal1l2 so we can reuse sl1l2 statistics
+            # add sl1l2 names for sal1l2 so we can reuse sl1l2 statistics
             if self.params['line_type'] == 'sal1l2':
-                self.input_data = self.input_data.rename(columns={'fabar': 'fbar',
-                                                                  'oabar': 'obar',
-                                                                  'foabar': 'fobar',
-                                                                  'ffabar': 'ffbar',
-                                                                  'ooabar': 'oobar'
-                                                                  })
+                for column in ('fbar', 'obar', 'fobar', 'ffbar', 'oobar'):
+                    anomaly_column = column.replace('bar', 'abar')
+                    if anomaly_column in self.input_data.columns:
+                        self.input_data[column] = self.input_data[anomaly_column]
                 self.column_names = self.input_data.columns.values
 
             # perform EE if needed
@@ -187,11 +187,11 @@ class SumStat:
         warnings.filterwarnings('error')
 
         # check if indy_vals have a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
+        has_agg_indy_field = any(item is not None and ';' in item for item in self.params['indy_vals'])
 
         # look if there is a field that need to be aggregated first - the field with ';'
         series_var_val = self.params['series_val_' + axis]
-        has_agg_series_field = any(any(GROUP_SEPARATOR in i for i in item) for item in series_var_val)
+        has_agg_series_field = any(';' in item for vals in series_var_val.values() for item in vals)
 
         if series_var_val and (has_agg_indy_field or has_agg_series_field):
             # the special field was detected
@@ -205,8 +205,14 @@ class SumStat:
                     filtered_by_indy = self.input_data
                 else:
                     # filter by value or split the value and filter by multiple values
+                    actual_indy_vals = indy_val.split(';')
+                    for ind, val in enumerate(actual_indy_vals):
+                        if is_string_integer(val):
+                            actual_indy_vals[ind] = int(val)
+                        elif is_string_strictly_float(val):
+                            actual_indy_vals[ind] = float(val)
                     filtered_by_indy = self.input_data[
-                        self.input_data[self.params['indy_var']].isin(indy_val.split(';'))]
+                        self.input_data[self.params['indy_var']].isin(actual_indy_vals)]
 
                 for point in all_points:
                     point_data = filtered_by_indy
@@ -230,9 +236,9 @@ class SumStat:
                         point_data = aggregate_field_values(series_var_val,
                                                             point_data,
                                                             self.params['line_type'])
-                    elif ';' in indy_val:
+                    elif indy_val is not None and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val,
                                                             point_data,
@@ -242,12 +248,39 @@ class SumStat:
             self.input_data = aggregated_values
             self.input_data.reset_index(inplace=True, drop=True)
 
+    def prepare_fields(self):
+        """Adds or adjusts the fields the row statistics are calculated from
+            if they are not the same as in the line of this type
+
+            Returns:
+                a copy of the data frame with prepared fields
+        """
+        data = self.input_data.copy()
+        if self.params['line_type'] == 'ecnt':
+            for field, root in (('mse', 'rmse'), ('mse_oerr', 'rmse_oerr'),
+                                ('variance', 'spread'), ('variance_oerr', 'spread_oerr'),
+                                ('variance_plus_oerr', 'spread_plus_oerr')):
+                if root in data.columns:
+                    data[field] = data[root] * data[root]
+            for field, number in (('me_ge_obs', 'n_ge_obs'), ('me_lt_obs', 'n_lt_obs')):
+                if field in data.columns and number in data.columns:
+                    data[field] = data[field] * data[number]
+        elif self.params['line_type'] == 'nbrcnt':
+            # the statistic is calculated from the FSS denominator
+            data['fss'] = data['fbs'] / (1.0 - data['fss'])
+        elif self.params['line_type'] == 'rps':
+            data['rps_climo'] = data['rps'] / (1 - data['rpss'])
+        return data
+
     def process_rows(self):
         """For each row in the data frame finds the row statistic name,
             calculates it's value  and stores this value in the corresponding column
         """
 
-        for index, row in self.input_data.iterrows():
+        prepared_data = self.prepare_fields()
+        column_names = prepared_data.columns.values
+
+        for index, row in prepared_data.iterrows():
             # statistic name
             stat = row['stat_name'].lower()
 
@@ -255,7 +288,7 @@ class SumStat:
             row_array = np.expand_dims(row.to_numpy(), axis=0)
 
             # calculate the stat value
-            stat_value = [calculate_statistic(row_array, self.column_names, stat)][0]
+            stat_value = [calculate_statistic(row_array, column_names, stat)][0]
 
             # save the value to the 'stat_value' column
             self.input_data.at[index, 'stat_value'] = stat_value
-- 
2.43.0


From 08ba7f3440425d3397d92f217c1eafe23e0fd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:18 +0000
Subject: [PATCH 41/71] fix: scorecard entries use the named operand series and
 statistic, honour the append flag given as a boolean and are missing instead
 of an exception for unpaired, single or constant differences

---
 metcalcpy/scorecard.py | 83 +++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..f37d2bd 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -178,13 +178,37 @@ class Scorecard:
         if derived_frame is not None:
             header = True
             mode = 'w'
-            if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+            if 'append_to_file' in self.params.keys() and str(self.params['append_to_file']) == 'True':
                 header = False
                 mode = 'a'
             export_csv = derived_frame.to_csv(self.params['sum_stat_output'],
                                           index=None, header=header, mode=mode,
                                           sep="\t", na_rep="NA", float_format='%.' + str(PRECISION) + 'f')
 
+    def _get_operand_values(self, component, series) -> list:
+        """ Completes the values of one operand of the derived series
+            with the values of the derived point.
+            Args:
+                component: list of the operand's own values
+                series: derived point: values of the series variables,
+                    indy val and statistic
+
+            Returns:
+                list of values with the group names replaced by the group values
+
+        """
+        # replace group names with values
+        result = [self.group_to_value.get(value, value) for value in component]
+
+        all_series_vals = list(self.params['series_val_1'].values())
+        for ind, series_comp in enumerate(series):
+            # keep the operand's own value of the series variable
+            if ind < len(all_series_vals) and intersection(all_series_vals[ind], result):
+                continue
+            if series_comp not in result:
+                result.append(series_comp)
+        return result
+
     def _get_stats_for_derived(self, series, series_to_data) -> Union[DataFrame, None]:
         """ Calculates  derived statistic value for input data
             Args:
@@ -209,25 +233,10 @@ class Scorecard:
 
         # find all components for the 1st and 2nd series
         derived_curve_component = self.derived_name_to_values[derived_name]
-        permute_for_first_series = derived_curve_component.first_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_first_series:
-                permute_for_first_series.append(series_comp)
-
-        # replace first_series components group names to values
-        for i, perm in enumerate(permute_for_first_series):
-            if perm in self.group_to_value:
-                permute_for_first_series[i] = self.group_to_value[perm]
-
-        permute_for_second_series = derived_curve_component.second_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_second_series:
-                permute_for_second_series.append(series_comp)
-
-        # replace second_series components group names to values
-        for i, perm in enumerate(permute_for_second_series):
-            if perm in self.group_to_value:
-                permute_for_second_series[i] = self.group_to_value[perm]
+        permute_for_first_series = self._get_operand_values(
+            derived_curve_component.first_component, series)
+        permute_for_second_series = self._get_operand_values(
+            derived_curve_component.second_component, series)
 
         ds_1 = None
         ds_2 = None
@@ -281,11 +290,15 @@ class Scorecard:
 
         # calculate derived statistic based on the operation and stat_flag
         derived_stat = None
-        if derived_curve_component.derived_operation == 'DIFF_SIG':
+        if derived_curve_component.derived_operation != 'SINGLE' \
+                and len(stat_values_1) != len(stat_values_2):
+            logging.warning('%s is missing: the series have different number of values', derived_name)
+        elif derived_curve_component.derived_operation == 'DIFF_SIG':
+            stat_name = derived_curve_component.first_component[-1]
             if self.params['stat_flag'] == 'EMC':
-                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2, stat_name)
             else:
-                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2, stat_name)
 
         elif derived_curve_component.derived_operation == 'DIFF':
             # perform the derived operation
@@ -323,17 +336,21 @@ class Scorecard:
         df.at[0, 'model'] = derived_name
         return df
 
-    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using p-value
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic
             Returns: the difference significance
 
         """
         # perform the derived operation
         derived_stat_list = calc_derived_curve_value(ds_1_values, ds_2_values, 'DIFF_SIG')
+        # the spread of the differences is needed
+        if len(derived_stat_list) < 2:
+            return None
         avg = statistics.mean(derived_stat_list)
         sdv = statistics.stdev(derived_stat_list)
         total = len(derived_stat_list)
@@ -341,16 +358,17 @@ class Scorecard:
         p_val = 1 - 2 * pt(abs(t), total - 1, lower_tail=False)
         derived_stat = perfect_score_adjustment(statistics.mean(ds_1_values),
                                                 statistics.mean(ds_2_values),
-                                                self.params['list_stat_1'][0],
+                                                stat_name,
                                                 p_val)
         return derived_stat
 
-    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values, stat_name) -> float:
         """ calculates the difference significance between two data arrays using EMC method
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic
             Returns: the difference significance
 
         """
@@ -363,16 +381,21 @@ class Scorecard:
         std = math.sqrt(sum(np.subtract(val2_minus_val1, acdm_list) * np.subtract(val2_minus_val1, acdm_list)) /
                         self.params['ndays'])
         nsz = len(ds_1_values)
+        # the spread of the differences is needed
+        if nsz < 2:
+            return None
         intvl = round(1.960 * std / math.sqrt(nsz - 1), 6)
+        if intvl == 0:
+            return None
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
-        if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
+        if stat_name.startswith('ME') or stat_name.startswith('BIAS'):
             ds = (abs(mean2 - mean1)) / intvl
             sss = abs(mean2) - abs(mean1)
             if sss is not None and sss < 0:
                 ds = (-1) * ds
-        elif self.params['list_stat_1'][0].startswith('RMSE') \
-                or self.params['list_stat_1'][0].startswith('RMSVE'):
+        elif stat_name.startswith('RMSE') \
+                or stat_name.startswith('RMSVE'):
             ds = (mean2 - mean1) / intvl
         else:
             ds = (mean1 - mean2) / intvl
@@ -413,7 +436,7 @@ class Scorecard:
                 derived_stat = -0.99
             elif ds999 <= -1 and ds999 > -100.0:
                 derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -100.0:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From 8dbca7f10bd1374ddf3361d8674ee123e3deaaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:45 +0000
Subject: [PATCH 42/71] fix: counts, totals, base rates and probability scores
 of tables without usable values are missing instead of an exception

---
 metcalcpy/util/ctc_statistics.py  | 10 +++++++++-
 metcalcpy/util/mcts_statistics.py |  2 +-
 metcalcpy/util/pstd_statistics.py | 18 +++++++++---------
 metcalcpy/util/utils.py           |  4 +++-
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 99c619b..faa4dba 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -45,7 +45,7 @@ def calculate_baser(input_data, columns_names):
                   + sum(input_data[:, np.where(columns_names == 'fn_oy')[0][0]])) \
                  / sum(input_data[:, np.where(columns_names == 'total')[0][0]])
         result = round_half_up(result, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -704,6 +704,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -723,6 +725,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -742,6 +746,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -761,6 +767,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
diff --git a/metcalcpy/util/mcts_statistics.py b/metcalcpy/util/mcts_statistics.py
index 1919b1c..6dce159 100644
--- a/metcalcpy/util/mcts_statistics.py
+++ b/metcalcpy/util/mcts_statistics.py
@@ -60,7 +60,7 @@ def calculate_mcts_hss_ec(input_data, columns_names):
         sum_all = sum(sum(cont_table, []))
         result = (diag_count - (ec_value * sum_all)) / (sum_all - (ec_value * sum_all))
         result = round_half_up(result, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 9bca0f3..205fc2d 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -48,7 +48,7 @@ def calculate_pstd_brier(input_data, columns_names):
 
         brier = reliability - resolution + uncertainty
         result = round_half_up(brier, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -81,7 +81,7 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         bss_smpl = (resolution - reliability) / uncertainty
         result = round_half_up(bss_smpl, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -107,7 +107,7 @@ def calculate_pstd_baser(input_data, columns_names):
         baser = df_pct_perm['oy_i'].sum() / t_table
         result = round_half_up(baser, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -134,7 +134,7 @@ def calculate_pstd_reliability(input_data, columns_names):
         reliability = calc_reliability(t_table, df_pct_perm)
         result = round_half_up(reliability, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -160,7 +160,7 @@ def calculate_pstd_resolution(input_data, columns_names):
         t_table = df_pct_perm['n_i'].sum()
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -188,7 +188,7 @@ def calculate_pstd_uncertainty(input_data, columns_names):
         uncertainty = calc_uncertainty(o_bar_table)
         result = round_half_up(uncertainty, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -214,7 +214,7 @@ def calculate_pstd_calibration(input_data, columns_names):
         calibration = oy_i / n_i
         result = round_half_up(calibration, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -240,7 +240,7 @@ def calculate_pstd_ni(input_data, columns_names):
         n_i = oy_i + on_i
         result = round_half_up(n_i, PRECISION)
 
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -285,7 +285,7 @@ def calculate_pstd_roc_auc(input_data, columns_names):
                           * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
 
         result = round_half_up(roc_auc, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c0cc817..26575f4 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -252,9 +252,11 @@ def round_half_up(num, decimals=0):
             n:  number
             decimals: decimal place
         Returns:
-            rounded number
+            rounded number or None if the number is missing
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
-- 
2.43.0


From 9eb0e0f0c6dae7b3486d3f161ba3d4f7bd668af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:59 +0000
Subject: [PATCH 43/71] fix: the difficulty index rejects spread that is not
 positive and the envelope rejects unsorted nodes

---
 metcalcpy/calc_difficulty_index.py | 3 ++-
 metcalcpy/piecewise_linear.py      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..db1cf7a 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,8 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    # missing values are allowed
+    assert not np.any(np.asarray(sigmaij) < EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From 47a47fc43bb3307e09ddbbed259ad1b1431186ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:59 +0000
Subject: [PATCH 44/71] fix: flipping longitudes keeps the data with their
 meridians and the input unchanged, and reordering starts at a positive
 meridian too

---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 6 +++---
 metcalcpy/contributed/tropical_diagnostics/utils.py | 6 +++---
 metcalcpy/util/utils.py                             | 4 +---
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..9c7276f 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
@@ -81,7 +81,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -96,7 +96,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..3271cb8 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
@@ -79,7 +79,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -92,7 +92,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 26575f4..0b1cb6b 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1005,11 +1005,9 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
       lonsortlocs:  sorted array indices
     '''
 
-    minlon = abs(minlon_in)
-
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in + minlon), range_in) - minlon
+    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From bbf391286f3b3d6b2d8c04120c6fe96a653f8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:05 +0000
Subject: [PATCH 45/71] fix: Interpolate in the top layer, on a surface and in
 other units, and start heights at the surface

---
 metcalcpy/vertical_interp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..0939ba1 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -91,6 +91,9 @@ def vertical_interp(fieldname, config,
     vertical_levels = np.array(config['vertical_levels'], dtype=field.dtype)
     nlev_interp = len(vertical_levels)
     logging.debug(vertical_levels)
+    # put the dimensions of the coordinate surfaces in the order of the field
+    coordinate_surfaces \
+        = coordinate_surfaces.broadcast_like(field).transpose(*field.dims)
     logging.debug(coordinate_surfaces.shape)
 
     """
@@ -146,8 +149,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
@@ -167,7 +170,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
@@ -201,7 +204,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
@@ -370,12 +374,14 @@ def height_from_pressure(config,
         * np.log(pressure_convert * surface_pressure
                  / pressure.loc[{lev_dim: pressure_coord[0]}])
 
+    # the layer containing the surface is as thick as its part above the surface
     for k in pressure_indices[1:]:
         # logging.debug(k)
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure) \
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
@@ -399,7 +405,7 @@ def height_from_pressure(config,
         surface_mask.loc[{lev_dim: pressure_coord[k]}] \
             = np.logical_and(
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
-            > pressure_convert * surface_pressure,
+            >= pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
             < pressure_convert * surface_pressure)
 
-- 
2.43.0


From 8dc3f53db7673cd5d8bfd2f42c14d4a10d5e4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:17 +0000
Subject: [PATCH 46/71] fix: Average over the requested latitudes in the
 meridional mean

---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 8168893708810d7b8d74bb6f8aadb25a1d291de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:17 +0000
Subject: [PATCH 47/71] fix: Zonal wave contributions, covariances and
 amplitudes for any grid, wavenumber subset and package

---
 metcalcpy/pre_processing/waves.py | 37 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..80e8a21 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -108,7 +108,7 @@ def _zonal_wave_coeffs_xrft(dat, dimvar):
     fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar,
                   true_phase=False, true_amplitude=False)
 
-    fc = fc.rename({'freq_longitude': 'lon_wavenum'})
+    fc = fc.rename({f'freq_{dimvar}': 'lon_wavenum'})
     fc = fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})
 
     return fc
@@ -150,9 +150,11 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     # mode (which would be the zonal mean, if kept)
     #
     # this is necessary because of the symmetric spectrum,
-    # so all other wavenumbers except the 0th need to
-    # be multipled by 2 to get the right amplitude
-    mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
+    # so all other wavenumbers except the 0th and the one
+    # at half the number of points need to be multipled
+    # by 2 to get the right amplitude
+    mult_mask = np.isfinite(fc.where((fc.lon_wavenum != 0)
+                                     & (2*fc.lon_wavenum != fc.nlons))) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
     phas = np.angle(fc, deg=phase_deg)
@@ -183,7 +185,8 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    # all wavenumbers are needed for the inverse transforms below
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
@@ -198,23 +201,28 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons,
+                                      axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
         recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
-    elif (fftpkg == 'xarray'):
-        fc = fc.rename({'lon_wavenum': 'freq_longitude'})
+    elif (fftpkg == 'xrft'):
+        points = xr.DataArray(np.arange(fc.nlons), dims=dimvar,
+                              coords={dimvar: dat[dimvar]})
 
+        # xrft.ifft always returns an even number of points,
+        # so evaluate the mode of each wavenumber
         for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
-
-            kcont = xrft.ifft((fc*mask).values, dim='lon_wavenum', real_dim='lon_wavenum')
+            mult = 1 if k == 0 or 2*k == fc.nlons else 2
+            kcont = mult*(fc.sel(lon_wavenum=k, drop=True)
+                          * np.exp(2j*np.pi*k*points/fc.nlons)).real / fc.nlons
             recons.append(kcont)
 
         recons = xr.concat(recons, dim='lon_wavenum')
-        recons = recons.assign_coords({'lon_wavenum': waves, dimvar: dat[dimvar]})
+        recons = recons.assign_coords({'lon_wavenum': waves})
+        recons = recons.transpose(*dat.dims, 'lon_wavenum')
 
     return recons.astype(dat.dtype)
 
@@ -251,12 +259,13 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
 
-    mult_mask = np.isfinite(fc1.where(fc1.lon_wavenum != 0)) + 1
+    mult_mask = np.isfinite(fc1.where((fc1.lon_wavenum != 0)
+                                      & (2*fc1.lon_wavenum != nlons))) + 1
     cov = mult_mask*np.real(fc1 * fc2.conj())/(nlons**2)
 
     return cov
-- 
2.43.0


From 0f732806a34aa5eb329d89f1615b280d93c4233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:17 +0000
Subject: [PATCH 48/71] fix: Read tagged variables without changing the shared
 YAML loader or expanding replaced values again

---
 metcalcpy/util/read_env_vars_in_config.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..79af643 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -32,8 +32,11 @@ def parse_config(path=None, data=None, tag='!ENV'):
     :param str tag: the tag to look for
     """
     # pattern for global vars: look for ${word}
-    pattern = re.compile('.*?\${(\w+)}.*?')
-    loader = yaml.SafeLoader
+    pattern = re.compile(r'.*?\${(\w+)}.*?')
+    reference = re.compile(r'\${(\w+)}')
+
+    class loader(yaml.SafeLoader):
+        """A loader of its own, so that other users of SafeLoader are not affected"""
 
     # the tag will be used to mark where to start searching for the pattern
     # e.g. somekey: !ENV somestring${MYENVVAR}blah blah blah
@@ -48,15 +51,9 @@ def parse_config(path=None, data=None, tag='!ENV'):
         variable
         """
         value = loader.construct_scalar(node)
-        match = pattern.findall(value)  # to find all env variables in line
-        if match:
-            full_value = value
-            for g in match:
-                full_value = full_value.replace(
-                    f'${{{g}}}', os.environ.get(g, g)
-                )
-            return full_value
-        return value
+        # replace all env variables in line, but not those in the replacements
+        return reference.sub(lambda match: os.environ.get(match.group(1), match.group(1)),
+                             value)
 
     loader.add_constructor(tag, constructor_env_variables)
 
-- 
2.43.0


From 73986b6b6ef471d5fd76aafe72665263e6c806aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:17 +0000
Subject: [PATCH 49/71] fix: Write comparison pictures repeatedly and show
 negative similarity as a difference

---
 metcalcpy/compare_images.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..a738f79 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -73,7 +73,8 @@ class CompareImages:
         # compute the Structural Similarity Index (SSIM) between the two
         # images, ensuring that the difference image is returned
         (self.mssim, self.grad) = structural_similarity(gray_image_1, gray_image_2, full=True)
-        self.grad = (self.grad * 255).astype("uint8")
+        # local similarity can be negative, which is as different as it gets
+        self.grad = (self.grad.clip(0, 1) * 255).astype("uint8")
         self.thresh = None
         self.diff_in_image_1 = None
         self.diff_in_image_2 = None
@@ -117,7 +118,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +127,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +196,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +205,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From eec075b134e43eaafd8da283700042ebbfd8e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:06 +0000
Subject: [PATCH 50/71] fix: Name and delete only the files of the plot being
 validated, and accept directories without a final slash

---
 metcalcpy/validate_mv_python.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..93c112a 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -51,7 +51,8 @@ def replace_name(old_name, postfix):
        Returns:
            file name with postfix
     """
-    return old_name.replace(".", "_" + postfix + ".")
+    name, extension = os.path.splitext(old_name)
+    return name + "_" + postfix + extension
 
 
 def clean(params):
@@ -104,8 +105,8 @@ def main(params):
             = replace_name(doc.getElementsByTagName('data_file')[0].firstChild.nodeValue, 'py')
         doc.getElementsByTagName('r_file')[0].firstChild.nodeValue \
             = replace_name(doc.getElementsByTagName('r_file')[0].firstChild.nodeValue, 'py')
-        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = params['mv_home'] + 'R_tmpl'
-        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = params['mv_home'] + 'R_work'
+        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_tmpl')
+        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_work')
         doc.getElementsByTagName('plots')[0].firstChild.nodeValue = params['output_plots_dir']
         doc.getElementsByTagName('user')[0].firstChild.nodeValue = params['db_user']
         doc.getElementsByTagName('password')[0].firstChild.nodeValue = params['db_pass']
@@ -113,7 +114,8 @@ def main(params):
         doc.getElementsByTagName('scripts')[0].firstChild.nodeValue = params['output_scripts_dir']
 
         # save new XML
-        new_xml_file = params['output_xml_dir'] + os.path.basename(replace_name(file, 'py'))
+        new_xml_file = os.path.join(params['output_xml_dir'],
+                                    os.path.basename(replace_name(file, 'py')))
         with open(new_xml_file, "w") as xml_file:
             doc.writexml(xml_file)
 
@@ -125,7 +127,7 @@ def main(params):
         (output, err) = process.communicate()
         p_status = process.wait()
 
-        new_image_path = params['output_plots_dir'] + replace_name(plot_name, 'py')
+        new_image_path = os.path.join(params['output_plots_dir'], replace_name(plot_name, 'py'))
 
         # check if both images are present or not
         if not os.path.exists(original_plot_path) \
@@ -158,10 +160,10 @@ def main(params):
                 else:
                     print(f'ERROR: For {plot_name} images are different')
                     # add more diagnostic images
-                    compare.save_thresh_image(params['output_plots_dir']
-                                              + replace_name(plot_name, 'thresh'))
+                    compare.save_thresh_image(os.path.join(params['output_plots_dir'],
+                                                           replace_name(plot_name, 'thresh')))
 
-            except KeyError as err:
+            except (KeyError, ValueError) as err:
                 print(f'ERROR: For {plot_name} : {err}')
 
 
@@ -173,10 +175,12 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + file_name.split('.')[0]
-                              + '*'):
-        os.remove(filename)
+    name = os.path.splitext(file_name)[0]
+    for filename in glob.glob(os.path.join(glob.escape(directory), glob.escape(name) + '*')):
+        similar = os.path.basename(filename)
+        # the original name or the name given to the Python version
+        if os.path.splitext(similar)[0] == name or similar.startswith(name + '_py.'):
+            os.remove(filename)
 
 
 def get_test_xml(params):
@@ -196,7 +200,7 @@ def get_test_xml(params):
     # for each fie in the directory check the date and extension
     # and include it to the output list if it fits the criteria
     for file in os.listdir(params['input_xml_dir']):
-        file_name = params['input_xml_dir'] + file
+        file_name = os.path.join(params['input_xml_dir'], file)
         filetime = dt.datetime.fromtimestamp(os.path.getmtime(file_name))
         extension = os.path.splitext(file)[1]
         if start <= filetime.date() <= end and extension == '.xml':
-- 
2.43.0


From efdcf4ffc7aed4770e4099b9f9a2f84607c0ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:14 +0000
Subject: [PATCH 51/71] fix: use every segment, frequency and northern latitude
 in space-time spectra

---
 metcalcpy/contributed/spacetime/spacetime.py | 94 +++++++-------------
 1 file changed, 30 insertions(+), 64 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..0c32673 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
@@ -172,46 +172,24 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    # the real fft returns every frequency once, test if longitude is odd or even,
+    # fft algorithm returns the Nyquist wavenumber once for even NL
+    nfreq = NT // 2 + 1
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, :NL] = PX
+        STC[1, :, :NL] = PY
+        STC[2, :, :NL] = CXY
+        STC[3, :, :NL] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, 1:NL + 1] = PX
+        STC[1, :, 1:NL + 1] = PY
+        STC[2, :, 1:NL + 1] = CXY
+        STC[3, :, 1:NL + 1] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -230,21 +208,13 @@ def get_symmasymm(X, lat, opt=False):
         NT, NM, NL = X.shape
         if opt == 'symm':
             x = X[:, lat[:] >= 0, :]
-            if len(lat) % 2 == 1:
-                for ll in range(NM // 2 + 1):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
-            else:
-                for ll in range(NM // 2):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
+            for ll, north in enumerate(np.where(lat[:] >= 0)[0]):
+                x[:, ll, :] = 0.5 * (X[:, north, :] + X[:, NM - north - 1, :])
         else:
             if opt == 'asymm' or opt == 'anti-symm':
                 x = X[:, lat[:] > 0, :]
-                if len(lat) % 2 == 1:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
-                else:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
+                for ll, north in enumerate(np.where(lat[:] > 0)[0]):
+                    x[:, ll, :] = 0.5 * (X[:, north, :] - X[:, NM - north - 1, :])
     else:
         print("Please provide a valid option: symm or asymm.")
 
@@ -329,7 +299,7 @@ def smooth121_1D(array_in):
 
     for i in np.arange(0, len(temp), 1):
         if np.isnan(temp[i]):
-            array_out[0] = np.nan
+            array_out[i] = np.nan
         elif i == 0 or np.isnan(temp[i-1]):
             array_out[i] = (3*temp[i]+temp[i+1])/4
         elif i == (len(temp)-1) or np.isnan(temp[i+1]):
@@ -382,7 +352,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
 
     if any([ntim - ntim1, nlat - nlat1, mlon - mlon1]) != 0:
         print("mjo_cross: X and Y must be same size")
-        print("           dimX=" + [ntim, nlat, mlon] + "   dimY=" + [ntim1, nlat1, mlon1])
+        print("           dimX=" + str([ntim, nlat, mlon]) + "   dimY=" + str([ntim1, nlat1, mlon1]))
         return
 
     # make a local copy (time,lat,lon)
@@ -400,13 +370,9 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     window = np.transpose(window)
     window = np.tile(window, [1, nlat, mlon])
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    # the real fft returns every frequency once, test if longitude is odd or even,
+    # fft algorithm returns the Nyquist wavenumber once for even mlon
+    nfreq = segLen // 2 + 1
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -415,7 +381,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.fft.rfftfreq(segLen)
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
@@ -426,7 +392,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     switch = True
     while switch:
         ntLast = ntStrt + segLen
-        if (ntLast > (ntim - 1)):
+        if ntLast > ntim:
             switch = False
             continue
 
@@ -441,7 +407,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
         STC = STC + STCseg
 
         kseg = kseg + 1
-        ntStrt = ntLast + segOverLap - 1
+        ntStrt = ntLast + segOverLap
 
     STC = STC / kseg
 
-- 
2.43.0


From 38135be759a739ec040091967b03b505fbbd7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:14 +0000
Subject: [PATCH 52/71] fix: keep the requested wavenumbers and one-sided depth
 limits in the wave filter

---
 metcalcpy/contributed/spacetime/spacetime.py | 24 ++++++++------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 0c32673..ec25e2d 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -442,7 +442,8 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
     fftData = np.copy(fftIn)
     fftData = np.transpose(fftData)
     nf, nk = fftData.shape  # frequency, wavenumber array
-    fftData = fftData[:, ::-1]
+    # order the wavenumbers so that eastward wavenumber i is at index i
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
 
     nt = (nf - 1) * 2
     jMin = int(round(nt / (tMax * obsPerDay)))
@@ -469,7 +470,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         fftData[0:jMin, :] = 0
     if jMax < nf:
         fftData[jMax + 1:nf, :] = 0
-    if iMin < iMax:
+    if iMin < iMax or kMin == kMax:
         # Set things outside the wavenumber range to zero, this is more normal
         if iMin > 0:
             fftData[:, 0:iMin] = 0
@@ -479,16 +480,11 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    c = np.full([2], np.nan)
+    if hMin != -9999:
+        c[0] = np.sqrt(g * hMin)
+    if hMax != -9999:
+        c[1] = np.sqrt(g * hMax)
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
@@ -546,7 +542,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         if jMaxWave < nf:
             fftData[jMaxWave + 1:nf, i] = 0
 
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData, -1, axis=1)[:, ::-1]
     fftData = np.transpose(fftData)
 
     return fftData
@@ -574,7 +570,7 @@ def kf_filter(data, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
 
     fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName)
 
-    datafilt = np.fft.irfft2(fftfilt, axes=(0, 1))
+    datafilt = np.fft.irfft2(fftfilt, s=data.shape, axes=(0, 1))
     datafilt = np.transpose(datafilt, axes=[1, 0])
 
     return datafilt
-- 
2.43.0


From 5257a25976e87b77fcfa8c79aa7a6118ca4411d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:14 +0000
Subject: [PATCH 53/71] fix: save tropical spectra in folders given without a
 final separator

---
 metcalcpy/contributed/tropical_diagnostics/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 3271cb8..5d00dd5 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -21,13 +21,14 @@ lonFlip:
 
 """
 
+import os
 import numpy as np
 import xarray as xr
 from netCDF4 import Dataset
 
 
 def save_Spectra(STCin, freq_in, wnum_in, filename, filepath, opt=False):
-    nc = Dataset(filepath + filename + '.nc', 'w', format='NETCDF4')
+    nc = Dataset(os.path.join(filepath, filename + '.nc'), 'w', format='NETCDF4')
 
     nvar, nfrq, nwave = STCin.shape
     # dimensions
-- 
2.43.0


From b369c9754864d0d01f6989f559f8cd066f5a1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:19 +0000
Subject: [PATCH 54/71] fix: reject index patterns on another grid, filter
 every series length and leave the data unchanged

---
 .../rmm_omi/compute_mjo_indices.py            | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..6bd3520 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -13,7 +13,7 @@ import numpy as np
 import xarray as xr
 import datetime
 import pandas as pd
-from scipy.fftpack import rfft, irfft, fftfreq
+from scipy.fftpack import rfft, irfft, rfftfreq
 from scipy.signal import detrend
 
 def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat, eoflat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat, EOF1.lat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon, EOF1.lon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear')
 
     # taper time window and pad with zeros
     orig_data = data
@@ -257,7 +257,7 @@ def bandpass_filter_3D(data, time, a, b):
 
     # set up frequency array for masking
 
-    W = fftfreq(data[:,0,0].size, dt)
+    W = rfftfreq(data[:,0,0].size, dt)
     W = np.tile(W,(nm,nl,1))
     W = np.moveaxis(W,2,0)
     P = 1 / W
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear')
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
@@ -441,8 +441,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
             fourier_fft = np.fft.fft2(np.squeeze(data[:,idx_m,:]))
             # reordering of spectrum is done to be consistent with the original kiladis ordering.
             fourier_fft = np.fft.fftshift(fourier_fft, axes=(0, 1))
-            fourier_fft = np.roll(fourier_fft, int(nt / 2), axis=0)
-            fourier_fft = np.roll(fourier_fft, int(nl / 2), axis=1)
+            fourier_fft = np.roll(fourier_fft, -int(nt / 2), axis=0)
+            fourier_fft = np.roll(fourier_fft, -int(nl / 2), axis=1)
 
             # ### Very similar to original Kiladis Code
             fourier_fft_filtered = fourier_fft
@@ -476,8 +476,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
 
             # ############################ FFT Backward transformation ############
             # #reorder spectrum back from kiladis ordering to python ordering
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nt / 2), axis=0)
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nl / 2), axis=1)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nt / 2), axis=0)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nl / 2), axis=1)
             fourier_fft_filtered = np.fft.ifftshift(fourier_fft_filtered, axes=(0, 1))
             filtered_olr = np.fft.ifft2(fourier_fft_filtered)
             filtered_olr = np.real(filtered_olr)
-- 
2.43.0


From e361d37208a9ba0157fd64b8222148492f6b99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:19 +0000
Subject: [PATCH 55/71] fix: label the MaKE and MaKI indices by month whatever
 the first day of the data

---
 metcalcpy/contributed/mjo_enso/compute_mjo_enso.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
index 9a47585..8dfb3c9 100644
--- a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
+++ b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
@@ -185,13 +185,12 @@ def make_maki(sst,wmjoks,meofs):
     make = list()
     maki = list()
 
-    while stdt <= edt:
+    time_mon = pd.date_range(datemin, datemax, freq='MS')#.to_pydatetime().tolist()
+    for stdt in time_mon:
         padt = stdt - relativedelta(days=90)
         make.append(pcmake.sel(time=slice(padt.strftime(date_format),stdt.strftime(date_format))).min('time',skipna='True').data.tolist())
         maki.append(pcmaki.sel(time=slice(padt.strftime(date_format),stdt.strftime(date_format))).min('time',skipna='True').data.tolist())
-        stdt = stdt + relativedelta(months=1)
 
-    time_mon = pd.date_range(datemin, datemax, freq='MS')#.to_pydatetime().tolist()
     make = xr.DataArray(make,name='make',coords=[time_mon],dims="time")
     maki = xr.DataArray(maki,name='maki',coords=[time_mon],dims="time")
 
-- 
2.43.0


From bea7e86c71d90c49a3eef059b0e2607e48a2f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:19 +0000
Subject: [PATCH 56/71] fix: wave skill of one lead or one forecast, and modes
 of any time dimension

---
 .../tropical_diagnostics/ccew_activity.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..e99cb40 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -152,9 +152,9 @@ def rem_seas_cyc(data: object, opt: object = False) -> object:
     data = data.rename({'time': 'month_day_str'})
     month_day_str = month_day_str.rename({'time': 'month_day_str'})
     data = data.assign_coords(month_day_str=month_day_str)
-    clim = data.groupby('month_day_str').mean('month_day_str')
+    clim = data.groupby('month_day_str', squeeze=False).mean('month_day_str')
 
-    data_anom = data.groupby('month_day_str') - clim
+    data_anom = data.groupby('month_day_str', squeeze=False) - clim
     data_anom = data_anom.rename({'month_day_str': 'time'})
     data_anom = data_anom.assign_coords(time=time)
 
@@ -212,7 +212,7 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    skill = act[:, 1:, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
@@ -417,12 +417,12 @@ def eof_comp(data, neof, opt, dim=0):
 
     # move dimension dim to 0
     if dim != 0:
-        data_reord = np.moveaxis(data, dim, 0)
+        data_reord = np.moveaxis(data.values, dim, 0)
     else:
-        data_reord = data
+        data_reord = data.values
 
     # reshape to 2d by combining all dimensions 1 and up
-    a = np.reshape(data_reord.values, (dimsizes[dim], diml))
+    a = np.reshape(data_reord, (dimsizes[dim], diml))
 
     # standardize if correlation matrix instead of covariance matrix is needed
     if opt.covariance == False:
-- 
2.43.0


From 090bf049c9d6519f2f4a513a7841855849e2f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:35 +0000
Subject: [PATCH 57/71] fix: use the grouping distance setting and keep blocked
 groups that cross the first longitude

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..c53b401 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -53,7 +53,7 @@ class BlockingCalculation():
         cos = cos * np.pi / 180.0
         way = np.cos(cos)
         way = np.sqrt(way)
-        weightf = np.repeat(way[:,np.newaxis],360,axis=1)
+        weightf = np.repeat(way[:,np.newaxis],len(lons),axis=1)
 
         ####Find latitude of maximum high-pass STD (CBL)
         yrlen = len(z500_anom_4d[:,0,0,0])
@@ -141,9 +141,8 @@ class BlockingCalculation():
         for i in np.arange(0,len(GIBL[:,0,0]),1):
             for k in np.arange(0,len(GIBL[0,:,0]),1):
                 gibli = np.zeros(len(GIBL[0,0,:]))
-                thresh = crit/2.0
                 a = ibl[i,k,:]
-                db = self.ibl_dist
+                thresh = self.ibl_dist
                 ibli = np.where(a==1)[0]
                 if len(ibli)==0:
                     continue
@@ -170,8 +169,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From b4161edd85eac2677297e4b747132f1c452cee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:59 +0000
Subject: [PATCH 58/71] fix: blocks of a season without lasting groups are
 empty instead of an error

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index c53b401..9bbcd41 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -267,10 +267,9 @@ class BlockingCalculation():
         A = A[1:]
 
         ######### - Getting rid of non-consectutve Time steps which would prevent blocking - #################
-        dd=[]
-        dy = []
-        dA = A[0]
-        dA = np.expand_dims(dA,axis=0)
+        dd = np.empty(0)
+        dy = np.empty(0)
+        dA = A[:1]
         ct=0
         for i in np.arange(1,len(locy),1):
             dd1 = locd[i-1]
-- 
2.43.0


From 67a284a445613a7785d1372cd4577f8dc42d9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:14 +0000
Subject: [PATCH 59/71] fix: read the <= operator of named thresholds when
 sorting

---
 metcalcpy/util/ctc_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index faa4dba..4fb2789 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1025,7 +1025,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
         # separate the fcst_thresh into two parts: the operator (ie <, <=, ==, >=, >)
         # and the numerical value of the threshold (which can be a negative value)
         match = re.match(r'(\<|\<=|\==|\>=|\>)*((-)*([0-9])(.)*)', thresh)
-        match_text = re.match(r'(\<|\<=|\==|\>=|\>)*((.)*)', thresh)
+        match_text = re.match(r'(\<=|\<|\==|\>=|\>)*((.)*)', thresh)
 
         if match:
             operators.append(match.group(1))
-- 
2.43.0


From f67cf49d1c107cb3e9cac3c1e24df7d7b099ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:08 +0000
Subject: [PATCH 60/71] fix: append aggregated rows to the output file also
 when asked with a boolean

---
 metcalcpy/agg_eclv.py | 2 +-
 metcalcpy/agg_stat.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 69a63cc..f8b5063 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -318,7 +318,7 @@ class AggEclv:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and str(self.params['append_to_file']) == 'True':
             header = False
             mode = 'a'
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 44e9ef5..a59778d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1194,7 +1194,7 @@ class AggStat:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and str(self.params['append_to_file']) == 'True':
             header = False
             mode = 'a'
 
-- 
2.43.0


From 7d917873cb859245e7470d17cf23081e78ceff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:53 +0000
Subject: [PATCH 61/71] fix: take the base rate of reliability curves from the
 forecast variable of the curve only

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a59778d..2ffb2e7 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1075,6 +1075,7 @@ class AggStat:
                         fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
                         if 'fcst_var' in self.input_data.columns:
                             all_filters.append((self.input_data['fcst_var'].isin([fcst_var])))
+                            all_filters_pct.append((self.input_data['fcst_var'].isin([fcst_var])))
 
                     # use numpy to select the rows where any record evaluates to True
                     mask = np.array(all_filters).all(axis=0)
-- 
2.43.0


From 38523221b1f872ef38b4ef2d13ef6a3d550d081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:55 +0000
Subject: [PATCH 62/71] fix: give no rows instead of a number when a filter
 names an absent column

---
 metcalcpy/util/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 0b1cb6b..c8db386 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -348,13 +348,14 @@ def column_data_by_name_value(input_data, columns, filters):
             # get an index og the column
             index_array = np.where(columns == key)[0]
             if index_array.size == 0:
-                return 0
+                # no row has the value if the column is absent
+                return input_data_filtered[:0]
 
             filter_ind = input_data_filtered[:, index_array[0]].astype(type(value)) == value
             input_data_filtered = input_data_filtered[filter_ind]
 
     except IndexError:
-        input_data_filtered = []
+        input_data_filtered = np.empty((0, len(columns)))
 
     return input_data_filtered
 
-- 
2.43.0


From 8c2c9d675ed227a371e68e3577b0f0e8260343df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:55 +0000
Subject: [PATCH 63/71] fix: derived value without bounds instead of a failed
 run when the two series have different numbers of cases

---
 metcalcpy/agg_stat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2ffb2e7..281ed5f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -711,7 +711,10 @@ class AggStat:
             self._validate_series_cases_for_derived_operation(ds_1.values, axis, num_diff_vals_first)
             self._validate_series_cases_for_derived_operation(ds_2.values, axis, num_diff_vals_second)
 
-        if self.params['num_iterations'] == 1 or derived_curve_component.derived_operation == 'ETB':
+        # the cases of the two series can be resampled together only if there are equally many
+        is_paired = len(ds_1.values) == len(ds_2.values)
+        if self.params['num_iterations'] == 1 or derived_curve_component.derived_operation == 'ETB' \
+                or not is_paired:
             # don't need bootstrapping and CI calculation -
             # calculate the derived statistic and exit
 
@@ -743,7 +746,7 @@ class AggStat:
                 results = BootstrapResults(lower_bound=None,
                                            value=None,
                                            upper_bound=None)
-            results.set_distributions([results.value])
+            results.set_distributions([results.value] if is_paired or self.params['num_iterations'] == 1 else [])
         else:
             # need bootstrapping and CI calculation in addition to the derived statistic
 
-- 
2.43.0


From 7d0142481b81d00309e83e4991d23ce5c6766792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:24 +0000
Subject: [PATCH 64/71] fix: create the time dimension of interpolated files
 instead of a failed run

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 0939ba1..1a67ac9 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -508,9 +508,9 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
         dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
+            ds['valid_time'].values.astype('O')/1e9)
         dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+            ds['init_time'].values.astype('O')/1e9)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
-- 
2.43.0


From 2f06b6b886eede7f34f148c532f3514c72783207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:24 +0000
Subject: [PATCH 65/71] fix: write the forecast reference time in universal
 time whatever the local time zone

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 1a67ac9..87858f3 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -44,7 +44,7 @@ import sys
 import argparse
 import logging
 import yaml
-from datetime import datetime
+from datetime import datetime, timezone
 import numpy as np
 import xarray as xr  # http://xarray.pydata.org/
 import netCDF4 as nc
@@ -563,7 +563,7 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         mm = int(yyyymmddhh_str[4:6])
         dd = int(yyyymmddhh_str[6:8])
         hh = int(yyyymmddhh_str[8:10])
-        ref_time_obj = datetime(yyyy, mm, dd, hh)
+        ref_time_obj = datetime(yyyy, mm, dd, hh, tzinfo=timezone.utc)
         ref_time_coord[:] = ref_time_obj.timestamp()
 
 
-- 
2.43.0


From 2573dd7202620d17113032c5720ab59badf45691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:24 +0000
Subject: [PATCH 66/71] fix: take the reference time from the name of the
 output file, not from its directory

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 87858f3..898ce4e 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -696,7 +696,7 @@ if __name__ == '__main__':
         logging.info('Creating with NetCDF4 ' + filename_out)
         ds_nc = nc.Dataset(filename_out, 'w')
         if args.ref_time_from_filename: 
-            ref_time = filename_out.split('.')[1]
+            ref_time = os.path.basename(filename_out).split('.')[1]
             write_dataset(ds_out, ds_nc, coords_interp=coords_interp,
                 forecast_reference_time=ref_time, create_time_dim=args.create_time_dim)
         else:
-- 
2.43.0


From 6f7275ccbc201c51871c2fc169599e0ee7b9219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:09 +0000
Subject: [PATCH 67/71] fix: keep a row that is on both axes once when
 equalizing against stored cases

---
 metcalcpy/agg_stat_eqz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index d512cfe..a1fb57a 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -90,6 +90,8 @@ class AggStatEventEqz:
             # perform for axis 2
             if self.params['series_val_2']:
                 output_ee_data = pd.concat([output_ee_data, self.perform_ee_on_axis(prev_cases, '2')])
+                # a row can be on both axes
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
         else:
             output_ee_data = self.input_data
             if self.input_data.empty:
-- 
2.43.0


From fb1139fe5e2ca2d2ea0a5ea03ac200be0388b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:09 +0000
Subject: [PATCH 68/71] fix: keep a row that belongs to several statistics or
 to both axes once when equalizing

---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8db386..f628f07 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -710,6 +710,8 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             else:
                 warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                # a row can belong to several statistics
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
 
     try:
         output_ee_data_valid = output_ee_data.drop('equalize', axis=1)
@@ -766,7 +768,9 @@ def perform_event_equalization(params, input_data):
             equalize_axis_data(fix_vals_keys, fix_vals_permuted_list, params, input_data, axis='2')
 
         # append and reindex output from both axis
-        all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
+        all_ee_records = pd.concat([output_ee_data, output_ee_data_2])
+        # a row can be on both axes
+        all_ee_records = all_ee_records[~all_ee_records.index.duplicated()]
 
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
         all_series = {}
-- 
2.43.0


From d9904c62ab0a36a4f0c6298af6491f257beef0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:48 +0000
Subject: [PATCH 69/71] fix: do not overwrite the input when object aggregation
 equalizes a file of another name

---
 metcalcpy/agg_stat_bootstrap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 09f4b44..c99936b 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -33,6 +33,7 @@ How to use:
 """
 import argparse
 import itertools
+import os
 import sys
 
 import yaml
@@ -318,7 +319,12 @@ class AggStatBootstrap:
         agg_stat_event_eqz = AggStatEventEqz(self.params)
 
         self.input_data = agg_stat_event_eqz.calculate_values()
-        file_name = self.params['agg_stat_input'].replace("agg_stat_bootstrap", "dataAfterEq")
+        dir_name, input_name = os.path.split(self.params['agg_stat_input'])
+        output_name = input_name.replace("agg_stat_bootstrap", "dataAfterEq")
+        # the input file must not be overwritten
+        if output_name == input_name:
+            output_name = "dataAfterEq_" + input_name
+        file_name = os.path.join(dir_name, output_name)
         self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
 
 
-- 
2.43.0


From fa2cd317b85f7872634a656ca701af7a1debc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:12 +0000
Subject: [PATCH 70/71] fix: summary groups with common members and groups in
 both series and independent values are combined by the values of each point

---
 metcalcpy/sum_stat.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 961d696..dd4ae82 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -231,16 +231,14 @@ class SumStat:
                         point_data = \
                             point_data[point_data[series_vars[index]].isin(actual_series_vals)]
 
-                    # aggregate point data
-                    if any(';' in series_val for series_val in point):
-                        point_data = aggregate_field_values(series_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-                    elif indy_val is not None and ';' in indy_val:
+                    # aggregate point data by the values of this point only:
+                    # the other values can have members in common with them
+                    point_var_val = {var: [val] for var, val in zip(series_vars, point)}
+                    if indy_val is not None and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val.copy()
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val,
+                        point_var_val[self.params['indy_var']] = [indy_val]
+                    if any(';' in vals[0] for vals in point_var_val.values()):
+                        point_data = aggregate_field_values(point_var_val,
                                                             point_data,
                                                             self.params['line_type'])
 
-- 
2.43.0


From 076f33970cc88f121ed392b86518c334a5022022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:10 +0000
Subject: [PATCH 71/71] fix: Accept thresholds written without a leading zero
 when sorting by threshold

---
 metcalcpy/util/ctc_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 4fb2789..c19b13c 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1024,7 +1024,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
         # for thresholds that are comprised of an operator and value, ie >=3,
         # separate the fcst_thresh into two parts: the operator (ie <, <=, ==, >=, >)
         # and the numerical value of the threshold (which can be a negative value)
-        match = re.match(r'(\<|\<=|\==|\>=|\>)*((-)*([0-9])(.)*)', thresh)
+        match = re.match(r'(\<|\<=|\==|\>=|\>)*((-)*(\.)?([0-9])(.)*)', thresh)
         match_text = re.match(r'(\<=|\<|\==|\>=|\>)*((.)*)', thresh)
 
         if match:
-- 
2.43.0

