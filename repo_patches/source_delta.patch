From f129a5d86d57ab44907cad6beb65463a3e896083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:44 +0000
Subject: [PATCH 001/129] fix: report rmse, si, estdev and bcrmse as missing
 when undefined instead of raising

---
 metcalcpy/util/sl1l2_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..b655d4d 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 47c77a9b02feee26cc09b5b88cb49ef8e9ac5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:44 +0000
Subject: [PATCH 002/129] fix: estdev of aggregated lines divides the weighted
 sums by the total

---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index b655d4d..03f5947 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 6bf971a8ec2c7e9b3bfb701cf52c99bb1e05d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 003/129] fix: standard deviation of a single pair is missing
 instead of infinite

---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 03f5947..bff80ca 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -571,7 +571,7 @@ def calculate_stddev(sum_total, sum_sq, n):
                 calculated STDDEV as float
                 or None if some of the data values are missing or invalid
     """
-    if n < 1:
+    if n <= 1:
         return None
     v = (sum_sq - sum_total * sum_total / n) / (n - 1)
     if v < 0:
-- 
2.43.0


From 2abcb5cba70bf7e5906536a262721a556a3674aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:13 +0000
Subject: [PATCH 004/129] fix: weight the sums by the totals when aggregating
 the fractional error

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..2660dd2 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -131,6 +131,7 @@ class AggStat:
         'oobar': ['oobar'],
         'mae': ['mae'],
         'mbias': ['obar', 'fbar'],
+        'fe': ['fbar', 'obar'],
         'corr': ['ffbar', 'fbar', 'oobar', 'obar', 'fobar'],
         'anom_corr': ['ffabar', 'fabar', 'ooabar', 'oabar', 'foabar'],
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
-- 
2.43.0


From 13ed1dfef0731ef5aa5de9896d65ceb354838811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:13 +0000
Subject: [PATCH 005/129] fix: spread/skill total can be aggregated

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2660dd2..2730c2d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -533,7 +533,7 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+        for column in self.STATISTIC_TO_FIELDS.get(self.statistic, []):
             data_for_prepare[column] \
                 = data_for_prepare[column].values * data_for_prepare['total'].values
 
-- 
2.43.0


From 3d6875c945421a3426c5b949a3fdcea64ce22cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:28 +0000
Subject: [PATCH 006/129] fix: wind direction is computed in degrees instead of
 radians

---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..bc28f38 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From 5c87161354730a27acdafc5c1ffd52678ff9fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:28 +0000
Subject: [PATCH 007/129] fix: wind direction error is the signed angle between
 the vectors

---
 metcalcpy/util/vcnt_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..8e1d357 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -478,6 +478,8 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         b = uf * uo + vf * vo
 
         dir_err = calc_direction(a, b)
+        if dir_err > 180:
+            dir_err = dir_err - 360
 
         result = round_half_up(dir_err, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From e139735136891fa76d601935ae0e153d86d0a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:28 +0000
Subject: [PATCH 008/129] fix: wind direction error uses the averaged observed
 wind when aggregating

---
 metcalcpy/util/vcnt_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index 8e1d357..29a7cc6 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
-- 
2.43.0


From 1a263f4cb93febaa627e391aa7782faa252f3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:28 +0000
Subject: [PATCH 009/129] fix: weight the wind components by the totals when
 aggregating mean wind speeds

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2730c2d..9dfe444 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -180,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From e278521c57772f0f2c8fe8e2f3002f320b02def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:45 +0000
Subject: [PATCH 010/129] fix: pool the spread plus observation error from its
 own column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 9dfe444..ed76ed3 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -491,7 +491,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From debf2e485a98436c862f27d10cae93f34ffb2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:45 +0000
Subject: [PATCH 011/129] fix: weight the observed event rate by the totals
 when aggregating neighborhood scores

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index ed76ed3..5589b15 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -552,9 +552,11 @@ class AggStat:
         fss_den = (data_for_prepare['fbs'].values / (1.0 - data_for_prepare['fss'].values)) * total
 
         f_rate = total * data_for_prepare['f_rate'].values
+        o_rate = total * data_for_prepare['o_rate'].values
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = o_rate
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From 834aa451cd05d47e73af25ddaa8a1d3328b2d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:15 +0000
Subject: [PATCH 012/129] fix: Brier score, skill and resolution no longer
 reset the index of a number

---
 metcalcpy/util/pstd_statistics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..aca2f08 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,7 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
 
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
@@ -76,7 +75,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +159,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From a5a42eb1bad7c58802a069781be316c6487d79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:44 +0000
Subject: [PATCH 013/129] fix: ROC area without events or non-events is missing
 instead of raising

---
 metcalcpy/util/pstd_statistics.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index aca2f08..8a66f1a 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -262,8 +262,14 @@ def calculate_pstd_roc_auc(input_data, columns_names):
     """
     warnings.filterwarnings('error')
 
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        roc = pd.DataFrame()
+    if roc.empty:
+        warnings.filterwarnings('ignore')
+        return None
     # add 1st and last rows
     final_roc = pd.DataFrame(
         {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
@@ -282,7 +288,7 @@ def calculate_pstd_roc_auc(input_data, columns_names):
                       * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
 
     result = round_half_up(roc_auc, PRECISION)
-
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From 177285e7e51b4cbc3fd7e93e752cc956235c6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:16 +0000
Subject: [PATCH 014/129] fix: base rate of a probability table is taken from
 the rows of the point

---
 metcalcpy/agg_stat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 5589b15..a836f44 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1045,7 +1045,9 @@ class AggStat:
                                 indy_val = filter_value
 
                             all_filters.append(self.input_data[field].isin(filter_list))
-                        if field in series_val.keys():
+                        if field in series_val.keys() \
+                                or (field == self.params['indy_var'] and field != 'thresh_i'
+                                    and field in self.input_data.keys()):
                             all_filters_pct.append((self.input_data[field].isin(filter_list)))
 
                     # add fcst var
@@ -1054,6 +1056,7 @@ class AggStat:
                         fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
                         if 'fcst_var' in self.input_data.columns:
                             all_filters.append((self.input_data['fcst_var'].isin([fcst_var])))
+                            all_filters_pct.append((self.input_data['fcst_var'].isin([fcst_var])))
 
                     # use numpy to select the rows where any record evaluates to True
                     mask = np.array(all_filters).all(axis=0)
-- 
2.43.0


From fa1301db1cac8b82d5b505657471a310bcdd7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:55 +0000
Subject: [PATCH 015/129] fix: ROC thresholds are listed in numeric instead of
 alphabetic order

---
 metcalcpy/util/ctc_statistics.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..f393564 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -207,13 +207,8 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
-
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # the sorted order of the thresholds, each of them once
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
-- 
2.43.0


From cd89fee6cbc86fb582043e64dd35b7c0c733bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:55 +0000
Subject: [PATCH 016/129] fix: sorting by threshold leaves the caller's data
 frame alone

---
 metcalcpy/util/ctc_statistics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index f393564..5cf759a 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1041,6 +1041,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
 
     # Columns to use in pandas dataframe sorting
     sort_by_cols = ['thresh_values', 'op_wts']
+    input_dataframe = input_dataframe.copy()
     input_dataframe['op_wts'] = operator_wts
 
     # assign new column based on the format of the threshold values
-- 
2.43.0


From bcd1c13e911ebc013ba5250d0f87bdb8f36a9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:16 +0000
Subject: [PATCH 017/129] fix: economic value of probability lines uses the
 built-in float type

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From d38eb36855c4ac02cb0fd48ecf8021eb511562c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:27 +0000
Subject: [PATCH 018/129] fix: economic value curves honour the request to add
 the base rate

---
 metcalcpy/agg_eclv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..910cfdd 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -77,6 +77,7 @@ class AggEclv:
 
         self.statistic = None
         self.current_thresh = None
+        self.current_data = None
         self.params = in_params
         self.steps = np.arange(self.params['cl_step'], 1, self.params['cl_step'])
         self.column_names = np.array(self.LINE_TYPE_COLUMNS[self.params['line_type']])
@@ -85,7 +86,7 @@ class AggEclv:
             self.add_base_rate = self.params['add_base_rate']
         else:
             self.add_base_rate = 0
-        if self.add_base_rate != 0 or self.add_base_rate != 1:
+        if self.add_base_rate != 0 and self.add_base_rate != 1:
             self.add_base_rate = 0
 
         try:
@@ -123,9 +124,13 @@ class AggEclv:
         elif values is not None and values.ndim == 3:
             # bootstrapped case
             stat_values = []
+            # resamples are evaluated at the same points as the original data
+            original = calculate_eclv(self.current_data, self.column_names, self.current_thresh,
+                                      self.params['line_type'], self.steps, self.add_base_rate)
+            cl_pts = self.steps if original is None else original['cl']
             for row in values:
                 stat_value = [
-                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps)]
+                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], cl_pts)]
                 stat_values.append(stat_value)
 
         else:
@@ -148,6 +153,7 @@ class AggEclv:
                                     upper_bound=None)
 
         data = series_data[self.column_names].to_numpy()
+        self.current_data = data
         boot_stat_thresh = {}
         for ind, thresh in enumerate(thresholds):
             self.current_thresh = thresh
@@ -235,7 +241,7 @@ class AggEclv:
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
-                out_frame_local[field] = [filter_value] * (len(self.steps))
+                out_frame_local[field] = [filter_value] * (len(self.steps) + self.add_base_rate)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
-- 
2.43.0


From e71978073d9ba4a9ead4a99c732b7900109dc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:27 +0000
Subject: [PATCH 019/129] fix: economic value run without series variables uses
 all rows

---
 metcalcpy/agg_eclv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 910cfdd..e20fb99 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -251,8 +251,10 @@ class AggEclv:
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
             # use numpy to select the rows where any record evaluates to True
-            mask = np.array(all_filters).all(axis=0)
-            point_data = self.input_data.loc[mask]
+            point_data = self.input_data
+            if all_filters:
+                mask = np.array(all_filters).all(axis=0)
+                point_data = self.input_data.loc[mask]
 
             # calculate bootstrap results
             if 'thresh_i' in point_data.columns:
-- 
2.43.0


From c852f2f06732dbd38c3804f3bf6ab61e73ede39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:37 +0000
Subject: [PATCH 020/129] fix: economic value run writes missing values for
 undefined curves instead of raising

---
 metcalcpy/agg_eclv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index e20fb99..5894bbc 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -148,9 +148,9 @@ class AggEclv:
 
         # if the data frame is empty - do nothing and return an empty object
         if series_data.empty:
-            return BootstrapResults(lower_bound=None,
-                                    value=None,
-                                    upper_bound=None)
+            return {ind: BootstrapResults(lower_bound=None,
+                                          value=None,
+                                          upper_bound=None) for ind in range(len(thresholds))}
 
         data = series_data[self.column_names].to_numpy()
         self.current_data = data
@@ -267,8 +267,12 @@ class AggEclv:
 
             for thresh_ind, thresh in enumerate(thresholds):
                 out_frame_local['thresh_i'] = [thresh] * (len(self.steps) + self.add_base_rate)
-                out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
-                out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                value = bootstrap_results[thresh_ind].value
+                if value is None:
+                    # the curve is not defined for this data
+                    value = {'cl': list(self.steps) + [None] * self.add_base_rate, 'V': None}
+                out_frame_local['x_pnt_i'] = value['cl']
+                out_frame_local['y_pnt_i'] = value['V']
                 out_frame_local['nstats'] = [len(point_data)] * (len(self.steps) + self.add_base_rate)
                 if self.params['num_iterations'] > 1:
                     out_frame_local['stat_btcu'] = bootstrap_results[thresh_ind].upper_bound
-- 
2.43.0


From 7ce4569c4fef1000692cc5e7fd988648cc2dfb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:37 +0000
Subject: [PATCH 021/129] fix: pivotal confidence limits of economic value
 curves

---
 metcalcpy/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..967d765 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -387,8 +387,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
             high = None
             column = all_values_np[:, ind]
             if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
+                low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
             elif ci_method == 'perc':
                 if _all_the_same(column):
-- 
2.43.0


From 962770a51c48082422ad4544641b95f617c86221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:53 +0000
Subject: [PATCH 022/129] fix: object count and area ratios select the objects
 their name says

---
 metcalcpy/util/mode_arearat_statistics.py | 6 +++---
 metcalcpy/util/mode_ratio_statistics.py   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..e8ce45d 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 3c62e981749ef16ac4aa7b04e7c839f64942885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:53 +0000
Subject: [PATCH 023/129] fix: object CSI, POD and area FAR use hits, misses
 and false alarms

---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 metcalcpy/util/mode_ratio_statistics.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index e8ce45d..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 50e67d4ba9b55b4ab7207269e0ca8a1917f742a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:53 +0000
Subject: [PATCH 024/129] fix: an empty object selection has area 0 instead of
 making the ratio missing

---
 metcalcpy/util/mode_arearat_statistics.py | 148 ++++++++++++----------
 1 file changed, 82 insertions(+), 66 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 347bbd5..4600f54 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -19,6 +19,22 @@ __author__ = 'Tatiana Burek'
 __version__ = '0.1.0'
 
 
+def _sum_area(input_data, columns_names):
+    """Calculates the total area of the selected objects
+
+        Args:
+            input_data: 2-dimensional numpy array with the selected objects
+            columns_names: names of the columns for the 2nd dimension as Numpy array
+
+        Returns:
+            the total area, 0 if no objects were selected
+            or None if all areas are missing
+    """
+    if len(input_data) == 0:
+        return 0
+    return sum_column_data_by_name(input_data, columns_names, 'area')
+
+
 def calculate_arearat_fsa_asa(input_data, columns_names):
     """Performs calculation of Area-weighted % of simple objects that are forecast
 
@@ -39,8 +55,8 @@ def calculate_arearat_fsa_asa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -68,8 +84,8 @@ def calculate_arearat_osa_asa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -97,8 +113,8 @@ def calculate_arearat_asm_asa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -126,8 +142,8 @@ def calculate_arearat_asu_asa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -155,8 +171,8 @@ def calculate_arearat_fsm_fsa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -184,8 +200,8 @@ def calculate_arearat_fsu_fsa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -213,8 +229,8 @@ def calculate_arearat_osm_osa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -243,8 +259,8 @@ def calculate_arearat_osu_osa(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -272,8 +288,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -301,8 +317,8 @@ def calculate_arearat_osm_asm(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -330,8 +346,8 @@ def calculate_arearat_osu_asu(input_data, columns_names):
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -357,8 +373,8 @@ def calculate_arearat_fsa_aaa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(input_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(input_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -384,8 +400,8 @@ def calculate_arearat_osa_aaa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
-        denominator = sum_column_data_by_name(input_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
+        denominator = _sum_area(input_data, columns_names)
         result = round_half_up(nominator / (denominator), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -412,9 +428,9 @@ def calculate_arearat_fsa_faa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -441,9 +457,9 @@ def calculate_arearat_fca_faa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -470,9 +486,9 @@ def calculate_arearat_osa_oaa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -499,9 +515,9 @@ def calculate_arearat_oca_oaa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -528,9 +544,9 @@ def calculate_arearat_fca_aca(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -557,9 +573,9 @@ def calculate_arearat_oca_aca(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -587,9 +603,9 @@ def calculate_arearat_fsa_osa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -617,9 +633,9 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -646,9 +662,9 @@ def calculate_arearat_aca_asa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -675,9 +691,9 @@ def calculate_arearat_asa_aca(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -704,9 +720,9 @@ def calculate_arearat_fca_fsa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -733,9 +749,9 @@ def calculate_arearat_fsa_fca(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -763,9 +779,9 @@ def calculate_arearat_oca_osa(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -793,9 +809,9 @@ def calculate_arearat_osa_oca(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator_data = column_data_by_name_value(input_data, columns_names, denominator_filter)
-        denominator = sum_column_data_by_name(denominator_data, columns_names, 'area')
+        denominator = _sum_area(denominator_data, columns_names)
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -821,7 +837,7 @@ def calculate_objahits(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         denominator = 2
         result = round_half_up(nominator / denominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
@@ -848,7 +864,7 @@ def calculate_objamisses(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         result = round_half_up(nominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -874,7 +890,7 @@ def calculate_objafas(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
         result = round_half_up(nominator, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -902,15 +918,15 @@ def calculate_objacsi(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
 
         denominator_1_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_1)
-        denominator_1 = sum_column_data_by_name(denominator_1_data, columns_names, 'area')
+        denominator_1 = _sum_area(denominator_1_data, columns_names)
 
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
-        denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
+        denominator_2 = _sum_area(denominator_2_data, columns_names)
         result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -938,15 +954,15 @@ def calculate_objapody(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
 
         denominator_1_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_1)
-        denominator_1 = sum_column_data_by_name(denominator_1_data, columns_names, 'area')
+        denominator_1 = _sum_area(denominator_1_data, columns_names)
 
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
-        denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
+        denominator_2 = _sum_area(denominator_2_data, columns_names)
         result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
@@ -974,15 +990,15 @@ def calculate_objafar(input_data, columns_names):
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-        nominator = sum_column_data_by_name(nominator_data, columns_names, 'area')
+        nominator = _sum_area(nominator_data, columns_names)
 
         denominator_1_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_1)
-        denominator_1 = sum_column_data_by_name(denominator_1_data, columns_names, 'area')
+        denominator_1 = _sum_area(denominator_1_data, columns_names)
 
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
-        denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
+        denominator_2 = _sum_area(denominator_2_data, columns_names)
         result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-- 
2.43.0


From 99066989057846e1be9feac4c5640c7b2066b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:53 +0000
Subject: [PATCH 025/129] fix: 3D volume ratios find the volume column

---
 metcalcpy/util/mode_3d_volrat_statistics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..650e6a3 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,7 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -637,6 +638,8 @@ def rename_column(columns_names):
     for index, name in enumerate(columns_names):
         if name == 'volume':
             columns_names_new.insert(index, 'area')
+        elif name == 'area':
+            columns_names_new.insert(index, None)
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From e972c4d30b9a9cd68414252b7bab3ef8967da7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:33 +0000
Subject: [PATCH 026/129] fix: counters and totals of missing columns are
 missing instead of raising

---
 metcalcpy/util/ctc_statistics.py | 8 ++++++++
 metcalcpy/util/utils.py          | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 5cf759a..30f69f3 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -703,6 +703,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -722,6 +724,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -741,6 +745,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -760,6 +766,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..561bdde 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -252,9 +252,11 @@ def round_half_up(num, decimals=0):
             n:  number
             decimals: decimal place
         Returns:
-            rounded number
+            rounded number or None if the number is None
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
-- 
2.43.0


From cc35837af5fe5362042f9f46c1a1536b1a32b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:33 +0000
Subject: [PATCH 027/129] fix: probability-table scores of empty or missing
 tables are missing instead of raising

---
 metcalcpy/util/pstd_statistics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8a66f1a..03fd9da 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -287,7 +287,10 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
                       * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
 
-    result = round_half_up(roc_auc, PRECISION)
+    try:
+        result = round_half_up(roc_auc, PRECISION)
+    except ValueError:
+        result = None
     warnings.filterwarnings('ignore')
     return result
 
@@ -345,6 +348,8 @@ def _calc_common_stats(columns_names, input_data):
                     - n_i
                     - o_bar_i
     """
+    if len(input_data) == 0:
+        raise ValueError('no data')
     pct_perm = {'thresh_i': [], 'oy_i': [], 'on_i': []}
     for column in columns_names:
         index = get_column_index_by_name(columns_names, column)
-- 
2.43.0


From d7207b82a9e785eed683cb0ad6c8fcf258c8acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 028/129] fix: event equalization leaves the caller's data
 frame alone

---
 metcalcpy/event_equalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..9a25f5f 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -49,6 +49,8 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
         A data frame that contains equalized records
     """
     pd.options.mode.chained_assignment = None
+    # the caller's data frame must not get the 'equalize' column
+    series_data = series_data.copy()
     column_names = list(series_data)
     exception_columns = ["", "fcst_valid_beg", 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD']
     if isinstance(fix_vars, str):
-- 
2.43.0


From 51c65563b6af01d20befc7e3a892604836641ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 029/129] fix: scores that answer early no longer leave
 warnings turned into errors

---
 metcalcpy/util/ctc_statistics.py    | 7 +++++++
 metcalcpy/util/eclv_statistics.py   | 2 ++
 metcalcpy/util/sal1l2_statistics.py | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 30f69f3..7338655 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -94,6 +94,7 @@ def calculate_fbias(input_data, columns_names):
         oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
              + sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         if oy == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -122,6 +123,7 @@ def calculate_fmean(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -322,6 +324,7 @@ def calculate_gss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -380,6 +383,7 @@ def calculate_hss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -444,6 +448,7 @@ def calculate_lodds(input_data, columns_names):
         fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
         if fy_oy is None or fy_on is None or fn_oy is None or fn_on is None:
+            warnings.filterwarnings('ignore')
             return None
         v = np.log(fy_oy) + np.log(fn_on) - np.log(fy_on) - np.log(fn_oy)
         v = round_half_up(v, PRECISION)
@@ -473,8 +478,10 @@ def calculate_bagss(input_data, columns_names):
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
         if fy_oy is None or fn_oy is None or fy_on is None or total is None:
+            warnings.filterwarnings('ignore')
             return None
         if fy_oy == 0 or fn_oy == 0 or total == 0:
+            warnings.filterwarnings('ignore')
             return None
         dbl_o = fy_oy + fn_oy
         dbl_lf = np.log(dbl_o / fn_oy)
diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index e74eccf..d6b2a31 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -55,9 +55,11 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
     # some validation
     if line_type != 'ctc' and line_type != 'pct':
         print(f'ERROR: incorrect line type {line_type} for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
     if line_type == 'pct' and thresh is None:
         print(f'ERROR: provide thresh for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
 
     try:
diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index 6a7913d..4227eeb 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -45,6 +45,7 @@ def calculate_anom_corr(input_data, columns_names, aggregation=False):
         v = (total ** 2 * ffbar - total ** 2 * fbar ** 2) \
             * (total ** 2 * oobar - total ** 2 * obar ** 2)
         if v <= 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr = (total ** 2 * fobar - total ** 2 * fbar * obar) / np.sqrt(v)
         if anom_corr > 1:
@@ -80,6 +81,7 @@ def calculate_anom_corr_raw(input_data, columns_names, aggregation=False):
         fobar = sum_column_data_by_name(input_data, columns_names, 'foabar') / total
         v = ffbar * oobar
         if v < 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr_raw = fobar / np.sqrt(v)
         if anom_corr_raw > 1:
-- 
2.43.0


From 1989eff5dcc6e736bb3056d62145e969b647ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:53 +0000
Subject: [PATCH 030/129] fix: a ';' group of independent values no longer
 changes the configured series

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a836f44..751dde2 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1090,7 +1090,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
-- 
2.43.0


From 7e2d00c725aa3686fb7435300876bfe38db45d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:53 +0000
Subject: [PATCH 031/129] fix: derived curves find series variables whose
 values are groups

---
 metcalcpy/agg_stat.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 751dde2..cf0482f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -933,11 +933,14 @@ class AggStat:
 
             # series 2 components
             ds_2 = derived_serie[1].split(' ')
+            # the values of the components: groups are referenced by their names
+            ds_1_vals = [self.group_to_value.get(name, name) for name in ds_1]
+            ds_2_vals = [self.group_to_value.get(name, name) for name in ds_2]
             # find a variable of the operation by comparing values in each derived series component
             series_var_vals = ()
-            for ind, name in enumerate(ds_1):
-                if name != ds_2[ind]:
-                    series_var_vals = (name, ds_2[ind])
+            for ind, name in enumerate(ds_1_vals):
+                if name != ds_2_vals[ind]:
+                    series_var_vals = (name, ds_2_vals[ind])
                     break
 
             series_var = list(series_val.keys())[-1]
@@ -951,10 +954,8 @@ class AggStat:
             derived_val[series_var] = None
 
             for var in series_val.keys():
-                if derived_val[var] is not None \
-                        and intersection(derived_val[var], ds_1) \
-                        == intersection(derived_val[var], ds_1):
-                    derived_val[var] = intersection(derived_val[var], ds_1)
+                if derived_val[var] is not None:
+                    derived_val[var] = intersection(derived_val[var], ds_1_vals)
 
             derived_curve_name = get_derived_curve_name(derived_serie)
             derived_val[series_var] = [derived_curve_name]
-- 
2.43.0


From 12564cccae7e6b06c0224451d70a8cc3422b8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:53 +0000
Subject: [PATCH 032/129] fix: derived curves pick the component of their own
 series and independent value

---
 metcalcpy/agg_stat.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index cf0482f..8539943 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -658,13 +658,19 @@ class AggStat:
         ds_2 = None
 
         # for each component find  its BootstrapDistributionResult object
+        # the same text can be a value of several fields: prefer the point that has
+        # the series values in the order of the component and the independent value
+        # of the derived point
+        num_series = len(self.params['series_val_' + axis])
         for series_to_distrib_key in distributions.keys():
+            same_indy = series_to_distrib_key[num_series:-1] == tuple(series)[num_series:-1]
+            key_series = list(series_to_distrib_key[:num_series])
             if all(elem in permute_for_first_series for elem in series_to_distrib_key):
-                ds_1 = distributions[series_to_distrib_key]
+                if ds_1 is None or (same_indy and key_series == permute_for_first_series[:num_series]):
+                    ds_1 = distributions[series_to_distrib_key]
             if all(elem in permute_for_second_series for elem in series_to_distrib_key):
-                ds_2 = distributions[series_to_distrib_key]
-            if ds_1 is not None and ds_2 is not None:
-                break
+                if ds_2 is None or (same_indy and key_series == permute_for_second_series[:num_series]):
+                    ds_2 = distributions[series_to_distrib_key]
 
         # if BootstrapDistributionResult object doesn't exist
         # or the original series data size is 0 return an empty object
-- 
2.43.0


From b84a224607fcef38218e997ea1861db7b9c8181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:53 +0000
Subject: [PATCH 033/129] fix: derived curves are refused only when a case has
 several values

---
 metcalcpy/agg_stat.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 8539943..c42f1f8 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -34,6 +34,7 @@ How to use:
 import sys
 import itertools
 import argparse
+from collections import Counter
 from inspect import signature
 import yaml
 import pandas
@@ -684,11 +685,11 @@ class AggStat:
         num_diff_vals_first = 0
         num_diff_vals_second = 0
         for val in permute_for_first_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            size = len(re.findall(DATE_TIME_REGEX, val) or val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_first = num_diff_vals_first + size
         for val in permute_for_second_series:
-            size = len(val.split(GROUP_SEPARATOR))
+            size = len(re.findall(DATE_TIME_REGEX, val) or val.split(GROUP_SEPARATOR))
             if size > 1:
                 num_diff_vals_second = num_diff_vals_second + size
         if num_diff_vals_first == 0:
@@ -879,22 +880,16 @@ class AggStat:
         try:
             # filter columns of interest
             date_lead_stat = series_data[:, [fcst_valid_ind, fcst_lead_index, stat_name_index]]
-            # find the number of unique combinations
-            unique_date_size = len(set(map(tuple, date_lead_stat)))
+            # find the number of rows of each combination
+            case_sizes = Counter(map(tuple, date_lead_stat))
         except TypeError as err:
             print(err)
-            unique_date_size = []
+            case_sizes = {None: len(series_data)}
 
-        # identify rows with unique combinations
-        ind = np.lexsort(
-            (series_data[:, stat_name_index],
-             series_data[:, fcst_lead_index], series_data[:, fcst_valid_ind]))
-        series_data = series_data[ind, :]
+        # each combination should have one row
+        # or, if the series has a group, at most one row for each value of the group
 
-        # the length of the frame with unique combinations should be the same
-        # as the number of unique combinations calculated before
-
-        if len(series_data) / num_diff_vals != unique_date_size \
+        if any(size > num_diff_vals for size in case_sizes.values()) \
                 and self.params['list_stat_' + axis] not in self.EXEMPTED_VARS:
             raise NameError("Derived curve can't be calculated."
                             " Multiple values for one valid date/fcst_lead")
-- 
2.43.0


From e498151c4384e70dc2af6374c17081a908dcdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:23 +0000
Subject: [PATCH 034/129] fix: derived curves of series with different numbers
 of cases no longer fail

---
 metcalcpy/agg_stat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index c42f1f8..a78c6e3 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -702,8 +702,10 @@ class AggStat:
             self._validate_series_cases_for_derived_operation(ds_1.values, axis, num_diff_vals_first)
             self._validate_series_cases_for_derived_operation(ds_2.values, axis, num_diff_vals_second)
 
-        if self.params['num_iterations'] == 1 or derived_curve_component.derived_operation == 'ETB':
-            # don't need bootstrapping and CI calculation -
+        if self.params['num_iterations'] == 1 or derived_curve_component.derived_operation == 'ETB' \
+                or len(ds_1.values) != len(ds_2.values):
+            # don't need bootstrapping and CI calculation
+            # or the series have different number of cases and can't be resampled together -
             # calculate the derived statistic and exit
 
             if derived_curve_component.derived_operation == 'ETB':
-- 
2.43.0


From 677acc6210a3e5e293c428e0152e131e99674b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:37 +0000
Subject: [PATCH 035/129] fix: derived curves read the series values of their
 components in order

---
 metcalcpy/agg_stat.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a78c6e3..d0ec71e 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -946,8 +946,18 @@ class AggStat:
                     series_var_vals = (name, ds_2_vals[ind])
                     break
 
+            # usually the components list the values in the order of the series variables
+            in_order = all(ind < len(ds_1_vals) and ds_1_vals[ind] in vals
+                           and ind < len(ds_2_vals) and ds_2_vals[ind] in vals
+                           for ind, vals in enumerate(series_val.values()))
+
             series_var = list(series_val.keys())[-1]
-            if len(series_var_vals) > 0:
+            if in_order:
+                for ind, var in enumerate(series_val.keys()):
+                    if ds_1_vals[ind] != ds_2_vals[ind]:
+                        series_var = var
+                        break
+            elif len(series_var_vals) > 0:
                 for var in series_val.keys():
                     if all(elem in series_val[var] for elem in series_var_vals):
                         series_var = var
@@ -956,9 +966,10 @@ class AggStat:
             derived_val = series_val.copy()
             derived_val[series_var] = None
 
-            for var in series_val.keys():
+            for ind, var in enumerate(series_val.keys()):
                 if derived_val[var] is not None:
-                    derived_val[var] = intersection(derived_val[var], ds_1_vals)
+                    derived_val[var] = [ds_1_vals[ind]] if in_order \
+                        else intersection(derived_val[var], ds_1_vals)
 
             derived_curve_name = get_derived_curve_name(derived_serie)
             derived_val[series_var] = [derived_curve_name]
-- 
2.43.0


From 56af32a1e1afd5a3a59c3f4c98f2f7580a05ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:55 +0000
Subject: [PATCH 036/129] fix: bootstrap with several threads evaluates the
 requested number of replicates

---
 metcalcpy/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 967d765..146081b 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -233,7 +233,7 @@ def _bootstrap_distribution_cbb(values_lists, stat_func_lists,
                                                       iteration_batch_size, seed, block_length))
             results.append(r)
 
-        results = _np.hstack([res.get() for res in results])
+        results = _np.hstack([res.get() for res in results])[:, :num_iterations]
 
         pool.close()
 
-- 
2.43.0


From e7a155895b67bf77f2e611c0581c92052d85d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:55 +0000
Subject: [PATCH 037/129] fix: confidence limits ignore missing replicates with
 every method

---
 metcalcpy/bootstrap.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 146081b..a32b17c 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -325,10 +325,17 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
     if stat_val is None:
         ci_method = "None"
 
-    if ci_method == 'pivotal':
-        low = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (1 - alpha / 2.))
+    # replicates with a missing statistic don't take part
+    bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
+
+    if bd.size == 0:
+        low = None
+        val = stat_val
+        high = None
+    elif ci_method == 'pivotal':
+        low = 2 * stat_val - _np.percentile(bd, 100 * (1 - alpha / 2.))
         val = stat_val
-        high = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (alpha / 2.))
+        high = 2 * stat_val - _np.percentile(bd, 100 * (alpha / 2.))
     elif ci_method == 'perc':
         # check if All values of bootstrap_dist are equal and if YES -
         # display a warning and do not calculate CIs - like boot.ci in R
@@ -337,7 +344,6 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
             low = None
             high = None
         else:
-            bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
             low = _np.percentile(bd, 100 * (alpha / 2.), method='linear')
             high = _np.percentile(bd, 100 * (1 - alpha / 2.), method='linear')
         val = stat_val
-- 
2.43.0


From 746d03edb0b2f7c715eaf336a901b36f676fc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:55 +0000
Subject: [PATCH 038/129] fix: economic value runs report percentile confidence
 limits

---
 metcalcpy/bootstrap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index a32b17c..76bcdaa 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -384,15 +384,16 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
 
         all_values_np = _np.array(all_values)
         steps_len = len(stat_val['cl'])
-        none_in_values = len(stat_val['V']) != sum(x is not None for x in stat_val['V'])
         stat_btcl = [None] * steps_len
         stat_btcu = [None] * steps_len
 
         for ind in range(steps_len):
             low = None
             high = None
-            column = all_values_np[:, ind]
-            if ci_method == 'pivotal':
+            column = all_values_np[:, ind] if all_values else _np.array([])
+            if column.size == 0:
+                pass
+            elif ci_method == 'pivotal':
                 low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
                 high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
@@ -402,9 +403,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
                     low = None
                     high = None
                 else:
-                    if none_in_values:
-                        low = _np.percentile(column, 100 * (alpha / 2.), interpolation='linear')
-                        high = _np.percentile(column, 100 * (1 - alpha / 2.), interpolation='linear')
+                    low = _np.percentile(column, 100 * (alpha / 2.), method='linear')
+                    high = _np.percentile(column, 100 * (1 - alpha / 2.), method='linear')
             stat_btcl[ind] = low
             stat_btcu[ind] = high
 
-- 
2.43.0


From 2180302498bf0edab73bd9bb87b2c00ae007a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:55 +0000
Subject: [PATCH 039/129] fix: confidence limits use the configured alpha

---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 5894bbc..9cebcf9 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -183,6 +183,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params['alpha'],
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index d0ec71e..b7e40cb 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -843,6 +843,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params['alpha'],
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..a138f8f 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params['alpha'])
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From 3d0ab386da9a19a012492d07d09f2a43d263507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 040/129] fix: object-ratio run writes every point to its own
 line

---
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a138f8f..9300985 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,8 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == point[field_ind]))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 93fa2ab42b7eb7433f2dccaaa6e36dd39fd07085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 041/129] fix: object-ratio run uses only the objects of its
 variable

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 9300985..f40d7cd 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -194,6 +194,9 @@ class AggStatBootstrap:
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == point[field_ind]))
                         out_frame_filter.append((out_frame['stat_name'] == stat_upper))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From ecad3b819d1fdc5eff2f0999005e164e37276761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 042/129] fix: object-ratio run resamples only the cases of the
 independent value

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index f40d7cd..455e26d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,12 +118,12 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
+                cases = []
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-- 
2.43.0


From 0a947b3413d5b87760c64089c4d89a2a9fc19961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 043/129] fix: object-ratio run writes a missing value for
 points without objects

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 455e26d..6b80f1d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -223,6 +223,9 @@ class AggStatBootstrap:
         return out_frame
 
     def _get_bootstrapped_stats(self, series_data, cases):
+        # without objects there is nothing to calculate
+        if series_data.empty:
+            return BootstrapResults(None, None, None)
         self.series_data = sort_data(series_data)
         if self.params['num_iterations'] == 1:
             stat_val = self._calc_stats(cases)[0]
-- 
2.43.0


From bd27ef77672bfa5ccc3e1f93fd0c40790da95364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:10 +0000
Subject: [PATCH 044/129] fix: object-ratio run receives the event equalized
 data

---
 metcalcpy/agg_stat_eqz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..f35fcb6 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -99,6 +99,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From 6bd5c06dbe25a9b7b91d4bac0821cea541452ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 045/129] fix: event equalization matches decimal values by
 number

---
 metcalcpy/event_equalize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index 9a25f5f..cd5aa1f 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -112,6 +112,10 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
             else:
                 if permutation[var_for_ee_ind] == 'NA':
                     permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
+                elif pd.api.types.is_float_dtype(permutation_data[var_for_ee]):
+                    permutation_data = permutation_data[permutation_data[var_for_ee]
+                                                        == pd.to_numeric(permutation[var_for_ee_ind],
+                                                                         errors='coerce')]
                 else:
                     permutation_data = permutation_data[permutation_data[var_for_ee]
                                                         == permutation[var_for_ee_ind]]
-- 
2.43.0


From 2ef9121fdba33a541a660fbee652b3fbaa010f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 046/129] fix: equalizing an axis filters by all its series
 variables and by number

---
 metcalcpy/util/utils.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 561bdde..80595e4 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -671,6 +671,22 @@ def calc_series_sums(input_df, line_type):
     return sums_data_frame
 
 
+def with_numbers(values):
+    """ Adds the numbers to the list of values for the values that represent numbers.
+        Args:
+            values: list of strings
+        Returns:
+            list with the original strings and the numbers
+    """
+    result = list(values)
+    for val in values:
+        if is_string_integer(val):
+            result.append(int(val))
+        elif is_string_strictly_float(val):
+            result.append(float(val))
+    return result
+
+
 def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axis='1'):
     """ Performs event equalisation on the specified axis on input data.
         Args:
@@ -698,6 +714,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if len(params['series_val_' + axis]) == 0:
                 series_data_for_ee = input_data
             else:
+                series_data_for_ee = input_data
                 for series_var, series_var_vals in params['series_val_' + axis].items():
                     # ungroup series value if needed
                     series_var_vals_no_group = []
@@ -709,10 +726,9 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-                    series_data_for_ee = input_data
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
-                            series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                            series_data_for_ee[series_var].isin(with_numbers(series_var_vals_no_group))]
                     if 'fcst_var' in input_data.keys():
                         series_data_for_ee = series_data_for_ee[series_data_for_ee['fcst_var'] == fcst_var]
                     if 'stat_name' in input_data.keys():
-- 
2.43.0


From 59c0541dc16fee50695c55054906ac01ebb98ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 047/129] fix: equalizing both axes uses the series values of
 both

---
 metcalcpy/util/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 80595e4..dbcf908 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -810,7 +810,8 @@ def perform_event_equalization(params, input_data):
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
         all_series = {**params['series_val_1'], **params['series_val_2']}
         for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+            all_series[key] = list(set(params['series_val_1'].get(key, []))
+                                   | set(params['series_val_2'].get(key, [])))
 
         # run EE on run event equalizer on Y1 and Y2
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-- 
2.43.0


From 343f141980daecb2a7349f3505ab602771ed0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 048/129] fix: event equalization driver uses all fixed values
 and the series of both axes

---
 metcalcpy/agg_stat_event_equalize.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..f58bc10 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -73,16 +73,10 @@ class AggStatEventEqualize:
         if not self.input_data.empty:
 
             # list all fixed variables
-            if 'fixed_vars_vals_input' in self.params:
-                fix_vals_permuted_list = []
-                for key in self.params['fixed_vars_vals_input']:
-                    vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
-
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
-
-            else:
-                fix_vals_permuted = []
+            # and their values
+            fix_vals_permuted = []
+            for vals in self.params.get('fixed_vars_vals_input', {}).values():
+                fix_vals_permuted.append(list(itertools.chain.from_iterable(vals.values())))
 
             # perform EE for each forecast variable on y1 axis
             output_ee_data = self.run_ee_on_axis(fix_vals_permuted, '1')
@@ -97,13 +91,13 @@ class AggStatEventEqualize:
                 warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
                 all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                for key in {**self.params['series_val_1'], **self.params['series_val_2']}:
+                    all_series_vars[key] = np.unique(self.params['series_val_1'].get(key, [])
+                                                     + self.params['series_val_2'].get(key, []))
 
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
                                                 all_series_vars,
-                                                list(self.params['fixed_vars_vals_input'].keys()),
+                                                list(self.params.get('fixed_vars_vals_input', {}).keys()),
                                                 fix_vals_permuted, True,
                                                 False)
 
@@ -138,7 +132,7 @@ class AggStatEventEqualize:
             series_data_after_ee = \
                 event_equalize(series_data_for_ee, self.params['indy_var'],
                                self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
+                               list(self.params.get('fixed_vars_vals_input', {}).keys()),
                                fix_vals_permuted, True, False)
 
             # append EE data to result
-- 
2.43.0


From c0687b0c79062a8085f66378c84472e568e97306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 049/129] fix: event equalization drivers match numeric series
 values

---
 metcalcpy/agg_stat_eqz.py            | 6 +++---
 metcalcpy/agg_stat_event_equalize.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index f35fcb6..1666e53 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -40,7 +40,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import parse_bool, with_numbers
 
 
 class AggStatEventEqz:
@@ -120,13 +120,13 @@ class AggStatEventEqz:
                 # filter input data based on fcst_var, statistic and all series variables values
                 series_data_for_ee = self.input_data[
                     (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
+                    & (self.input_data[series_var].isin(with_numbers(series_var_vals_no_group)))
                     ]
                 # filter previous cases on the same  fcst_var,
                 # statistic and all series variables values
                 series_data_for_prev_cases = prev_cases[
                     (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
+                    & (prev_cases[series_var].isin(with_numbers(series_var_vals_no_group)))
                     ]
                 # get unique cases from filtered previous cases
 
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index f58bc10..0cce8ad 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -41,6 +41,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
+from metcalcpy.util.utils import with_numbers
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -126,7 +127,7 @@ class AggStatEventEqualize:
 
             # filter input data based on fcst_var, statistic and all series variables values
             series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+                self.input_data[series_var].isin(with_numbers(series_var_vals_no_group))
             ]
             # perform EE on filtered data
             series_data_after_ee = \
-- 
2.43.0


From eacd45d46132781a40dc3e35a498e7b7a08ef5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:32 +0000
Subject: [PATCH 050/129] fix: equalizing against cases leaves the caller's
 data frame alone

---
 metcalcpy/event_equalize_against_values.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/event_equalize_against_values.py b/metcalcpy/event_equalize_against_values.py
index 6681ffa..e52512b 100644
--- a/metcalcpy/event_equalize_against_values.py
+++ b/metcalcpy/event_equalize_against_values.py
@@ -38,6 +38,8 @@ def event_equalize_against_values(series_data, input_unique_cases):
 
     warning_remove = "WARNING: event equalization removed {} rows"
 
+    # don't change the input data frame
+    series_data = series_data.copy()
     column_names = list(series_data)
 
     if 'fcst_valid' in column_names:
-- 
2.43.0


From b5705f165241cd52cfec38eec381359cdc4a2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:47 +0000
Subject: [PATCH 051/129] fix: equalization and aggregation leave the warning
 policy of the process alone

---
 metcalcpy/agg_stat_eqz.py            | 3 ---
 metcalcpy/agg_stat_event_equalize.py | 3 ---
 metcalcpy/sum_stat.py                | 3 ---
 metcalcpy/util/utils.py              | 3 ---
 4 files changed, 12 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 1666e53..9472ad1 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -36,7 +36,6 @@ import sys
 import logging
 import pandas as pd
 import yaml
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
@@ -106,8 +105,6 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        warnings.filterwarnings('error')
-
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 0cce8ad..4fe2be0 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -37,7 +37,6 @@ import itertools
 import pandas as pd
 import yaml
 import numpy as np
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
@@ -89,7 +88,6 @@ class AggStatEventEqualize:
 
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
-                warnings.simplefilter(action='error', category=FutureWarning)
                 all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
                 all_series_vars = {}
                 for key in {**self.params['series_val_1'], **self.params['series_val_2']}:
@@ -140,7 +138,6 @@ class AggStatEventEqualize:
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
         return output_ee_data
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..81aabac 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -38,7 +38,6 @@ import time
 import logging
 import yaml
 import pandas as pd
-import warnings
 from inspect import signature
 
 from metcalcpy import GROUP_SEPARATOR
@@ -184,8 +183,6 @@ class SumStat:
         Args:
             axis - y1 or y1 axis
         """
-        warnings.filterwarnings('error')
-
         # check if indy_vals have a field that need to be aggregated - the field with ';'
         has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index dbcf908..b9db880 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -472,8 +472,6 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
@@ -747,7 +745,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
     try:
-- 
2.43.0


From 41724550c33044c1bb68c4b9cad90589fc1d973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:54 +0000
Subject: [PATCH 052/129] fix: merging grouped values sums the contingency
 table counts

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b9db880..b9c9eac 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -587,7 +587,7 @@ def calc_series_sums(input_df, line_type):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-- 
2.43.0


From 5610eb88883356575e7ccf0809b5e95669e2039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:31 +0000
Subject: [PATCH 053/129] fix: merging grouped anomaly and mean absolute error
 columns keeps the line consistent

---
 metcalcpy/util/utils.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b9c9eac..cbc3d47 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -589,23 +589,14 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
                                                                input_df.columns, column)]
 
-    elif line_type == 'sl1l2':
-        column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+    elif line_type in ('sl1l2', 'sal1l2'):
+        # the columns of sal1l2 can already be renamed to the names of sl1l2
+        column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar',
+                        'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar', 'mae']
         for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
-
-    elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                           / total]
 
     elif line_type == 'vl1l2':
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
-- 
2.43.0


From c45136fd56791515333b8ea67a33a79dbe5f13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:31 +0000
Subject: [PATCH 054/129] fix: merging grouped ensemble and ranked probability
 columns keeps the line consistent

---
 metcalcpy/util/utils.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index cbc3d47..796f104 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -606,10 +606,12 @@ def calc_series_sums(input_df, line_type):
                                        / total]
 
     elif line_type == 'val1l2':
-        column_names = ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar']
+        column_names = ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar',
+                        'fa_speed_bar', 'oa_speed_bar']
         for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                           / total]
 
     elif line_type == 'grad':
         column_names = ['fgbar', 'ogbar', 'mgbar', 'egbar']
@@ -644,10 +646,29 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        column_names = ['me', 'mae', 'crps', 'ign', 'me_oerr', 'mae_oerr', 'spread_md',
+                        'crpscl', 'crps_emp', 'crpscl_emp', 'crps_emp_fair']
         for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                           / total]
+        # the root mean square columns
+        for column in ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']:
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.sqrt(np.nansum(input_df['total'] * input_df[column] ** 2)
+                                                   / total)]
+        # the number and the mean error of the pairs on each side of the observation
+        for side in ['ge', 'lt']:
+            if f'n_{side}_obs' in input_df.columns:
+                number = input_df[f'n_{side}_obs'].astype(float)
+                sums_data_frame[f'n_{side}_obs'] = [np.nansum(number)]
+                sums_data_frame[f'me_{side}_obs'] = [np.nansum(input_df[f'me_{side}_obs'] * number)
+                                                     / np.nansum(number)]
+        # the skill scores
+        sums_data_frame['crpss'] = 1 - sums_data_frame['crps'] / sums_data_frame['crps_climo']
+        if 'crpscl_emp' in input_df.columns:
+            sums_data_frame['crpss_emp'] = 1 - sums_data_frame['crps_emp'] / sums_data_frame['crpscl_emp']
+
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
@@ -656,6 +677,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From 01072efaaea276cc6468cd7f8b3c088ac430bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:12 +0000
Subject: [PATCH 055/129] fix: merging grouped values neither loses, invents
 nor mixes lines

---
 metcalcpy/util/utils.py | 108 ++++++++++------------------------------
 1 file changed, 26 insertions(+), 82 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 796f104..06451ad 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -472,94 +472,38 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    # get unique values for valid date/time and lead time
-    unique_valid = input_data_frame.fcst_valid_beg.unique()
-    unique_lead = input_data_frame.fcst_lead.unique()
-
     for series_var, series_vals in series_var_val.items():
         for series_val in series_vals:
             if ';' in series_val:
                 # found the aggregated field
-                single_values = series_val.split(';')
-
-                # for each valid
-                for valid in unique_valid:
-                    if series_var != 'fcst_lead':
-                        for lead in unique_lead:
-                            # find rows for the aggregation and their indexes
-                            rows_for_agg = input_data_frame[
-                                (input_data_frame.fcst_valid_beg == valid)
-                                & (input_data_frame.fcst_lead == lead)
-                                & (input_data_frame[series_var].isin(single_values))
-                                ]
-                            rows_indexes = rows_for_agg.index.values
-                            # reset indexes
-                            rows_for_agg.reset_index(inplace=True, drop=True)
-
-                            # remove these rows from the main data_frame
-                            input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                            aggregated_result = calc_series_sums(rows_for_agg, line_type)
-
-                            # record the result as a first row in the old selection
-                            for field in input_data_frame.columns:
-                                if field in aggregated_result.columns.values:
-                                    rows_for_agg.at[0, field] = aggregated_result[field][0]
-
-                            # replace the aggregated field name
-                            rows_for_agg.at[0, series_var] = series_val
-
-                            # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
-
+                single_values = [val for val in series_val.split(';') if val != '']
+
+                # only the lines of the same case, variable and statistic are aggregated
+                case_fields = [field for field in ['fcst_valid_beg', 'fcst_lead', 'fcst_var', 'stat_name']
+                               if field != series_var and field in input_data_frame.columns]
+
+                # find rows for the aggregation
+                is_for_agg = input_data_frame[series_var].isin(with_numbers(single_values))
+                result = [input_data_frame[~is_for_agg]]
+                for _, rows_for_agg in input_data_frame[is_for_agg].groupby(case_fields, sort=False):
+                    aggregated_result = calc_series_sums(rows_for_agg, line_type)
+
+                    # record the result as a first row in the old selection
+                    aggregated_row = rows_for_agg.iloc[:1].copy()
+                    for field in input_data_frame.columns:
+                        if field in aggregated_result.columns.values:
+                            aggregated_row[field] = aggregated_result[field][0]
+
+                    # replace the aggregated field name
+                    # the lead time stays a number - use the first one
+                    if series_var == 'fcst_lead':
+                        aggregated_row[series_var] = int(single_values[0])
                     else:
-                        # if the aggregated field is 'fcst_lead'
-
-                        # pandas treats the fcst_lead values as dtype int64, therefore convert
-                        # the single_values to int type so the pd.isin() properly matches
-                        # the input_data_frame[series_var].
-                        single_values_int = []
-                        for val in single_values:
-                            if val != '':
-                                single_values_int.append((int(val)))
-
-                        # find rows for the aggregation and their indexes
-                        rows_for_agg = input_data_frame[
-                            (input_data_frame.fcst_valid_beg == valid)
-                            & (input_data_frame[series_var].isin(single_values_int))
-                            ]
-
-                        rows_indexes = rows_for_agg.index.values
-
-                        # reset indexes
-                        rows_for_agg.reset_index(inplace=True, drop=True)
-
-                        # remove these rows from the main data_frame
-                        input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                        aggregated_result = calc_series_sums(rows_for_agg, line_type)
-
-                        # record the result as a first row in the old selection
-                        for field in input_data_frame.columns:
-                            if field in aggregated_result.columns.values:
-                                rows_for_agg.at[0, field] = aggregated_result[field][0]
-
-                        # replace the aggregated field name
-
-                        # some versions of pandas will generate an error when assigning a numerical value with a ';'
-                        # strip off the ';' to make this "version-independent"
-                        if ';' in series_val:
-                            sep_val = series_val.split(';')
-
-                        # different versions of pandas may generate a SettingWithCopy Warning
-                        # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
-                        try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
-                        except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
+                        aggregated_row[series_var] = series_val
+                    result.append(aggregated_row)
 
-                        # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                if len(result) > 1:
+                    input_data_frame = pd.concat(result, ignore_index=True)
 
     return input_data_frame
 
-- 
2.43.0


From 6953163a763413a462a7d3ed47d103bfdde51b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:12 +0000
Subject: [PATCH 056/129] fix: merging grouped values knows the neighborhood
 line types of the aggregation run

---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 06451ad..27fc387 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -527,7 +527,7 @@ def calc_series_sums(input_df, line_type):
     sums_data_frame['total'] = [total]
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
@@ -563,7 +563,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
-- 
2.43.0


From 4f5e66fcdf0c6725dec590daf53317936e7f3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:27 +0000
Subject: [PATCH 057/129] fix: summary run merges the ';' groups of its series
 and independent values

---
 metcalcpy/sum_stat.py | 50 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 81aabac..6fc4b77 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -31,6 +31,7 @@ How to use:
                 new File(System.getProperty("user.home")));
 
 """
+import re
 import sys
 import itertools
 import argparse
@@ -40,7 +41,7 @@ import yaml
 import pandas as pd
 from inspect import signature
 
-from metcalcpy import GROUP_SEPARATOR
+from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
@@ -53,8 +54,8 @@ from metcalcpy.util.ecnt_statistics import *
 from metcalcpy.util.nbrctc_statistics import *
 from metcalcpy.util.rps_statistics import *
 
-from metcalcpy.util.utils import is_string_integer, parse_bool, \
-    aggregate_field_values, perform_event_equalization, is_string_strictly_float
+from metcalcpy.util.utils import parse_bool, \
+    aggregate_field_values, perform_event_equalization, with_numbers
 
 
 class SumStat:
@@ -184,17 +185,17 @@ class SumStat:
             axis - y1 or y1 axis
         """
         # check if indy_vals have a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
+        has_agg_indy_field = any(val is not None and ';' in val for val in self.params['indy_vals'])
 
         # look if there is a field that need to be aggregated first - the field with ';'
         series_var_val = self.params['series_val_' + axis]
-        has_agg_series_field = any(any(GROUP_SEPARATOR in i for i in item) for item in series_var_val)
+        has_agg_series_field = any(';' in val for vals in series_var_val.values() for val in vals)
 
         if series_var_val and (has_agg_indy_field or has_agg_series_field):
             # the special field was detected
 
             all_points = list(itertools.product(*series_var_val.values()))
-            aggregated_values = pd.DataFrame()
+            aggregated_values = []
             series_vars = list(series_var_val.keys())
             for indy_val in self.params['indy_vals']:
                 # filter the input frame by each indy value
@@ -203,41 +204,38 @@ class SumStat:
                 else:
                     # filter by value or split the value and filter by multiple values
                     filtered_by_indy = self.input_data[
-                        self.input_data[self.params['indy_var']].isin(indy_val.split(';'))]
+                        self.input_data[self.params['indy_var']].isin(with_numbers(indy_val.split(';')))]
 
                 for point in all_points:
                     point_data = filtered_by_indy
+                    fields_for_agg = {}
 
                     for index, series_var in enumerate(series_vars):
                         # get actual series value(s) and filter by them
                         if ';' in point[index]:
                             actual_series_vals = point[index].split(';')
+                            fields_for_agg[series_var] = [point[index]]
                         else:
-                            actual_series_vals = point[index].split(GROUP_SEPARATOR)
-                        for ind, val in enumerate(actual_series_vals):
-                            if is_string_integer(val):
-                                actual_series_vals[ind] = int(val)
-                            elif is_string_strictly_float(val):
-                                actual_series_vals[ind] = float(val)
+                            actual_series_vals = re.findall(DATE_TIME_REGEX, point[index])
+                            if len(actual_series_vals) == 0:
+                                actual_series_vals = point[index].split(GROUP_SEPARATOR)
                         point_data = \
-                            point_data[point_data[series_vars[index]].isin(actual_series_vals)]
+                            point_data[point_data[series_var].isin(with_numbers(actual_series_vals))]
+
+                    # aggregated value in indy val - aggregate it too
+                    if indy_val is not None and ';' in indy_val:
+                        fields_for_agg[self.params['indy_var']] = [indy_val]
 
                     # aggregate point data
-                    if any(';' in series_val for series_val in point):
-                        point_data = aggregate_field_values(series_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-                    elif ';' in indy_val:
-                        # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val,
+                    if fields_for_agg:
+                        point_data = aggregate_field_values(fields_for_agg,
                                                             point_data,
                                                             self.params['line_type'])
 
-                    aggregated_values = pd.concat([aggregated_values, point_data])
-            self.input_data = aggregated_values
-            self.input_data.reset_index(inplace=True, drop=True)
+                    aggregated_values.append(point_data)
+            if aggregated_values:
+                self.input_data = pd.concat(aggregated_values)
+                self.input_data.reset_index(inplace=True, drop=True)
 
     def process_rows(self):
         """For each row in the data frame finds the row statistic name,
-- 
2.43.0


From 6e767ce611df8c95750d47a58f13e1419ae1526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:39 +0000
Subject: [PATCH 058/129] fix: summary run prepares the columns its statistics
 are calculated from

---
 metcalcpy/sum_stat.py | 46 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 6fc4b77..fc309bc 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -45,6 +45,7 @@ from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
 from metcalcpy.util.vl1l2_statistics import *
@@ -107,7 +108,7 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -127,16 +128,6 @@ class SumStat:
         try:
             fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
 
-            # change names for sal1l2 so we can reuse sl1l2 statistics
-            if self.params['line_type'] == 'sal1l2':
-                self.input_data = self.input_data.rename(columns={'fabar': 'fbar',
-                                                                  'oabar': 'obar',
-                                                                  'foabar': 'fobar',
-                                                                  'ffabar': 'ffbar',
-                                                                  'ooabar': 'oobar'
-                                                                  })
-                self.column_names = self.input_data.columns.values
-
             # perform EE if needed
             is_event_equal = parse_bool(self.params['event_equal'])
             if is_event_equal:
@@ -237,12 +228,41 @@ class SumStat:
                 self.input_data = pd.concat(aggregated_values)
                 self.input_data.reset_index(inplace=True, drop=True)
 
+    def prepare_data(self):
+        """Adds the columns that the statistics of the line type are calculated from
+            Returns:
+                A copy of the data frame with these columns
+        """
+        data = self.input_data.copy()
+        line_type = self.params['line_type']
+        if line_type == 'sal1l2':
+            # add names for sal1l2 so we can reuse sl1l2 statistics
+            for column in ('fabar', 'oabar', 'foabar', 'ffabar', 'ooabar'):
+                data[column.replace('abar', 'bar')] = data[column]
+        elif line_type == 'ecnt':
+            for column, root in {'mse': 'rmse', 'mse_oerr': 'rmse_oerr', 'variance': 'spread',
+                                 'variance_oerr': 'spread_oerr',
+                                 'variance_plus_oerr': 'spread_plus_oerr'}.items():
+                if root in data.columns:
+                    data[column] = data[root] * data[root]
+            for side in ('ge', 'lt'):
+                if f'n_{side}_obs' in data.columns:
+                    data[f'me_{side}_obs'] = data[f'me_{side}_obs'] * data[f'n_{side}_obs']
+        elif line_type == 'rps':
+            data['rps_climo'] = data['rps'] / (1 - data['rpss'])
+        elif line_type == 'nbrcnt':
+            data['fss'] = data['fbs'] / (1 - data['fss'])
+        return data
+
     def process_rows(self):
         """For each row in the data frame finds the row statistic name,
             calculates it's value  and stores this value in the corresponding column
         """
 
-        for index, row in self.input_data.iterrows():
+        prepared_data = self.prepare_data()
+        column_names = prepared_data.columns.values
+
+        for index, row in prepared_data.iterrows():
             # statistic name
             stat = row['stat_name'].lower()
 
@@ -250,7 +270,7 @@ class SumStat:
             row_array = np.expand_dims(row.to_numpy(), axis=0)
 
             # calculate the stat value
-            stat_value = [calculate_statistic(row_array, self.column_names, stat)][0]
+            stat_value = [calculate_statistic(row_array, column_names, stat)][0]
 
             # save the value to the 'stat_value' column
             self.input_data.at[index, 'stat_value'] = stat_value
-- 
2.43.0


From 68a303ec952bd22e0f175e06fb88fb052e31edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:04 +0000
Subject: [PATCH 059/129] fix: scorecard refuses several values per case of the
 second component too

---
 metcalcpy/scorecard.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..da47cf4 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -260,17 +260,18 @@ class Scorecard:
             else:
                 fcst_valid_ind = \
                     np.where(self.column_names == 'fcst_init')[0][0]
-            try:
-                # filter columns of interest
-                date_lead_stat = ds_1.values[:, [fcst_valid_ind, fcst_lead_index, stat_name_index]]
-                # find the number of unique combinations
-                unique_date_size = len(set(map(tuple, date_lead_stat)))
-            except TypeError as err:
-                print(err)
-                unique_date_size = []
-            if unique_date_size != len(ds_1.values):
-                raise NameError("Derived curve can't be calculated."
-                                " Multiple values for one valid date/fcst_lead")
+            for values in (ds_1.values, ds_2.values):
+                try:
+                    # filter columns of interest
+                    date_lead_stat = values[:, [fcst_valid_ind, fcst_lead_index, stat_name_index]]
+                    # find the number of unique combinations
+                    unique_date_size = len(set(map(tuple, date_lead_stat)))
+                except TypeError as err:
+                    print(err)
+                    unique_date_size = []
+                if unique_date_size != len(values):
+                    raise NameError("Derived curve can't be calculated."
+                                    " Multiple values for one valid date/fcst_lead")
 
         # sort data by dates
         ds_1_values = sort_data(ds_1)
-- 
2.43.0


From cc6e49e7d27fdced51667b83c5bd12b6c59321fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:04 +0000
Subject: [PATCH 060/129] fix: scorecard compares the cases both components
 have

---
 metcalcpy/scorecard.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index da47cf4..4947f27 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -273,6 +273,15 @@ class Scorecard:
                     raise NameError("Derived curve can't be calculated."
                                     " Multiple values for one valid date/fcst_lead")
 
+            # compare only the cases that both components have
+            case_columns = [self.column_names[fcst_valid_ind], 'fcst_lead']
+            cases_1 = pd.MultiIndex.from_frame(ds_1[case_columns])
+            cases_2 = pd.MultiIndex.from_frame(ds_2[case_columns])
+            ds_1 = ds_1[cases_1.isin(cases_2)]
+            ds_2 = ds_2[cases_2.isin(cases_1)]
+            if ds_1.empty:
+                return None
+
         # sort data by dates
         ds_1_values = sort_data(ds_1)
         ds_2_values = sort_data(ds_2)
-- 
2.43.0


From 4a55a75d949195736740dc98cc1fb41fd2329c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:04 +0000
Subject: [PATCH 061/129] fix: scorecard significance is missing instead of
 raising when the differences do not vary

---
 metcalcpy/scorecard.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 4947f27..f315f6c 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -344,6 +344,9 @@ class Scorecard:
         """
         # perform the derived operation
         derived_stat_list = calc_derived_curve_value(ds_1_values, ds_2_values, 'DIFF_SIG')
+        # the test needs differences that vary
+        if len(set(derived_stat_list)) < 2:
+            return None
         avg = statistics.mean(derived_stat_list)
         sdv = statistics.stdev(derived_stat_list)
         total = len(derived_stat_list)
@@ -373,7 +376,11 @@ class Scorecard:
         std = math.sqrt(sum(np.subtract(val2_minus_val1, acdm_list) * np.subtract(val2_minus_val1, acdm_list)) /
                         self.params['ndays'])
         nsz = len(ds_1_values)
+        if nsz < 2:
+            return None
         intvl = round(1.960 * std / math.sqrt(nsz - 1), 6)
+        if intvl == 0:
+            return None
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
         if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
-- 
2.43.0


From c49e240e0490d7d64437bf3d3f88ed6f7e92dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:04 +0000
Subject: [PATCH 062/129] fix: scorecard rates a scaled difference of exactly
 -100

---
 metcalcpy/scorecard.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f315f6c..463457f 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -428,9 +428,7 @@ class Scorecard:
                 derived_stat = -0.95
             elif ds99 <= -1 and ds999 > -1:
                 derived_stat = -0.99
-            elif ds999 <= -1 and ds999 > -100.0:
-                derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -1:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From fab57790ce97afc56444929db7edbc258cef7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:04 +0000
Subject: [PATCH 063/129] fix: scorecard judges a difference by its own
 statistic

---
 metcalcpy/scorecard.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 463457f..bd5d177 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -292,10 +292,11 @@ class Scorecard:
         # calculate derived statistic based on the operation and stat_flag
         derived_stat = None
         if derived_curve_component.derived_operation == 'DIFF_SIG':
+            stat_name = derived_curve_component.first_component[-1]
             if self.params['stat_flag'] == 'EMC':
-                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2, stat_name)
             else:
-                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
+                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2, stat_name)
 
         elif derived_curve_component.derived_operation == 'DIFF':
             # perform the derived operation
@@ -333,15 +334,18 @@ class Scorecard:
         df.at[0, 'model'] = derived_name
         return df
 
-    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_ncar(self, ds_1_values, ds_2_values, stat_name=None) -> float:
         """ calculates the difference significance between two data arrays using p-value
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic, the first requested one by default
             Returns: the difference significance
 
         """
+        if stat_name is None:
+            stat_name = self.params['list_stat_1'][0]
         # perform the derived operation
         derived_stat_list = calc_derived_curve_value(ds_1_values, ds_2_values, 'DIFF_SIG')
         # the test needs differences that vary
@@ -354,19 +358,22 @@ class Scorecard:
         p_val = 1 - 2 * pt(abs(t), total - 1, lower_tail=False)
         derived_stat = perfect_score_adjustment(statistics.mean(ds_1_values),
                                                 statistics.mean(ds_2_values),
-                                                self.params['list_stat_1'][0],
+                                                stat_name,
                                                 p_val)
         return derived_stat
 
-    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values) -> float:
+    def _calculate_diff_sig_emc(self, ds_1_values, ds_2_values, stat_name=None) -> float:
         """ calculates the difference significance between two data arrays using EMC method
 
             Args:
                     ds_1_values: list of floats
                     ds_2_values: list of floats
+                    stat_name: name of the statistic, the first requested one by default
             Returns: the difference significance
 
         """
+        if stat_name is None:
+            stat_name = self.params['list_stat_1'][0]
         derived_stat = None
         values_1 = np.array(ds_1_values)
         values_2 = np.array(ds_2_values)
@@ -383,13 +390,13 @@ class Scorecard:
             return None
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
-        if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
+        if stat_name.startswith('ME') or stat_name.startswith('BIAS'):
             ds = (abs(mean2 - mean1)) / intvl
             sss = abs(mean2) - abs(mean1)
             if sss is not None and sss < 0:
                 ds = (-1) * ds
-        elif self.params['list_stat_1'][0].startswith('RMSE') \
-                or self.params['list_stat_1'][0].startswith('RMSVE'):
+        elif stat_name.startswith('RMSE') \
+                or stat_name.startswith('RMSVE'):
             ds = (mean2 - mean1) / intvl
         else:
             ds = (mean1 - mean2) / intvl
-- 
2.43.0


From 1a8886d2052c55c2234cc3fb7ac04a0ee98d6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:13 +0000
Subject: [PATCH 064/129] fix: scorecard no longer truncates the means of
 whole-number statistics

---
 metcalcpy/scorecard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index bd5d177..0c64854 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -375,8 +375,8 @@ class Scorecard:
         if stat_name is None:
             stat_name = self.params['list_stat_1'][0]
         derived_stat = None
-        values_1 = np.array(ds_1_values)
-        values_2 = np.array(ds_2_values)
+        values_1 = np.array(ds_1_values, dtype=float)
+        values_2 = np.array(ds_2_values, dtype=float)
         val2_minus_val1 = np.subtract(values_2, values_1)
         acdm = sum(val2_minus_val1) / self.params['ndays']
         acdm_list = [acdm] * len(values_1)
-- 
2.43.0


From a654f7a895f7c61881de0fdf220b4d6c3a0a824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:38 +0000
Subject: [PATCH 065/129] fix: paired equivalence test reports the outcome of
 p-values that are exactly zero

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 27fc387..f1e48bf 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1196,7 +1196,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-- 
2.43.0


From 5ec2bed454205f7998c3496749cb0f7597df3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:38 +0000
Subject: [PATCH 066/129] fix: labels of the paired equivalence test agree when
 a p-value equals alpha

---
 metcalcpy/util/tost_paired.py | 8 ++++----
 metcalcpy/util/utils.py       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..13f799b 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -143,16 +143,16 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest <= alpha and ptost <= alpha:
+    if pttest < alpha and ptost < alpha:
         combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
+    if pttest < alpha and ptost >= alpha:
         combined_outcome = 'diff_no_eqv'
 
-    if pttest > alpha and ptost <= alpha:
+    if pttest >= alpha and ptost < alpha:
         combined_outcome = 'no_diff_eqv'
 
-    if pttest > alpha and ptost > alpha:
+    if pttest >= alpha and ptost >= alpha:
         combined_outcome = 'no_diff_no_eqv'
 
     if pttest < alpha:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f1e48bf..0bd6f96 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1197,16 +1197,16 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
     if pttest is not None and ptost is not None:
-        if pttest <= alpha and ptost <= alpha:
+        if pttest < alpha and ptost < alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest < alpha and ptost >= alpha:
             combined_outcome = 'diff_no_eqv'
 
-        if pttest > alpha and ptost <= alpha:
+        if pttest >= alpha and ptost < alpha:
             combined_outcome = 'no_diff_eqv'
 
-        if pttest > alpha and ptost > alpha:
+        if pttest >= alpha and ptost >= alpha:
             combined_outcome = 'no_diff_no_eqv'
 
         if pttest < alpha:
-- 
2.43.0


From bc5544598151ad64bbe5befc0a471b55dcb0b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:50 +0000
Subject: [PATCH 067/129] fix: stand-alone paired equivalence test accepts
 differences that do not vary

---
 metcalcpy/util/tost_paired.py | 67 ++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 13f799b..b5deaad 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -123,19 +123,26 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
-    t = (m1 - m2) / se
     degree_f = n - 1
 
-    pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
-
-    t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
-    p1 = pt(t1, degree_f, lower_tail=False)
-    t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
-    p2 = pt(t2, degree_f, lower_tail=True)
+    if se != 0:
+        t = (m1 - m2) / se
+        pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
+        t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
+        p1 = pt(t1, degree_f, lower_tail=False)
+        t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
+        p2 = pt(t2, degree_f, lower_tail=True)
+        ptost = max(p1, p2)
+    else:
+        pttest = None
+        t1 = None
+        p1 = None
+        t2 = None
+        p2 = None
+        ptost = None
 
     ll90 = ((m1 - m2) - qt(1 - alpha, degree_f) * se)
     ul90 = ((m1 - m2) + qt(1 - alpha, degree_f) * se)
-    ptost = max(p1, p2)
 
     dif = (m1 - m2)
     ll95 = ((m1 - m2) - qt(1 - (alpha / 2), degree_f) * se)
@@ -143,32 +150,42 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest < alpha and ptost < alpha:
-        combined_outcome = 'diff_eqv'
+    if pttest is not None and ptost is not None:
+        if pttest < alpha and ptost < alpha:
+            combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost >= alpha:
-        combined_outcome = 'diff_no_eqv'
+        if pttest < alpha and ptost >= alpha:
+            combined_outcome = 'diff_no_eqv'
 
-    if pttest >= alpha and ptost < alpha:
-        combined_outcome = 'no_diff_eqv'
+        if pttest >= alpha and ptost < alpha:
+            combined_outcome = 'no_diff_eqv'
 
-    if pttest >= alpha and ptost >= alpha:
-        combined_outcome = 'no_diff_no_eqv'
+        if pttest >= alpha and ptost >= alpha:
+            combined_outcome = 'no_diff_no_eqv'
 
-    if pttest < alpha:
-        test_outcome = 'significant'
-    else:
-        test_outcome = 'non-significant'
+        if pttest < alpha:
+            test_outcome = 'significant'
+        else:
+            test_outcome = 'non-significant'
+
+        if ptost < alpha:
+            tost_outcome = 'significant'
+        else:
+            tost_outcome = 'non-significant'
 
-    if ptost < alpha:
-        tost_outcome = 'significant'
+        t = (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION))
+        p = (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION))
     else:
-        tost_outcome = 'non-significant'
+        combined_outcome = 'none'
+        tost_outcome = 'none'
+        test_outcome = 'none'
+        t = (None, None)
+        p = (None, None)
 
     return {
         'dif': round_half_up(dif, PRECISION),
-        't': (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION)),
-        'p': (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION)),
+        't': t,
+        'p': p,
         'degrees_of_freedom': round_half_up(degree_f, PRECISION),
         'ci_tost': (round_half_up(ll90, PRECISION), round_half_up(ul90, PRECISION) ),
         'ci_ttest': (round_half_up(ll95, PRECISION), round_half_up(ul95, PRECISION)),
-- 
2.43.0


From 7a1fcc11bdd88c7d3f59aba65c107846392acf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:21 +0000
Subject: [PATCH 068/129] fix: autocorrelation coefficient is the least-squares
 slope

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 0bd6f96..05b997e 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1355,4 +1355,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 4c96352299ff0e308b861a2efa46db183f87732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:21 +0000
Subject: [PATCH 069/129] fix: standard errors of trends and steps are reported
 instead of raising

---
 metcalcpy/util/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 05b997e..71c0046 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -841,10 +841,12 @@ def compute_std_err_from_mean(data):
     if variance > 0.0 and (len(data) - number_of_none) > 2:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else math.inf
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -915,10 +917,12 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         # represents excusions from the median of the data.
 
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else math.inf
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
@@ -1338,6 +1342,9 @@ def autocor_coef(data: list) -> Union[None, float]:
         return None
 
     x_i = data_valid[0: len(data_valid) - 1]
+    # the slope needs values that vary
+    if min(x_i) == max(x_i):
+        return None
     y_i = data_valid[1: len(data_valid)]
     data_mean = st.mean(data_valid)
 
-- 
2.43.0


From a1ac10ef778757d0b8718d1ee7155fa7b858fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:21 +0000
Subject: [PATCH 070/129] fix: standard errors leave out missing values

---
 metcalcpy/util/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 71c0046..da0e28a 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -835,10 +835,10 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    data = [x for x in data if x is not None and not np.isnan(x)]
+    variance = st.variance(data) if len(data) > 2 else 0.0
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
         if ar_1 is None:
@@ -936,13 +936,13 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
-        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
+        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) \
+                  / (1.349 * math.sqrt(len(data) - number_of_none))
 
     else:
         std_err = 0.0
         ar_1 = 0
-    return std_err, ratio_flag, ar_1, len(data)
+    return std_err, ratio_flag, ar_1, len(data) - number_of_none
 
 
 def compute_std_err_from_sum(data):
@@ -957,7 +957,7 @@ def compute_std_err_from_sum(data):
     std_err = compute_std_err_from_mean(data)
 
     # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    return std_err[0] * std_err[3], std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
-- 
2.43.0


From d81522812005ccee1276bd6ae896f4a7bf874e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:21 +0000
Subject: [PATCH 071/129] fix: autocorrelation of constant or missing values is
 missing instead of raising

---
 metcalcpy/util/correlation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..f226871 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -311,7 +311,10 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     size = np.size(x)
 
     # calculate mean of the array excluding None
-    mean_val = mean(remove_none(x))
+    valid = remove_none(x)
+    if len(valid) == 0:
+        return None
+    mean_val = mean(valid)
 
     # calculate lag if not provided
     if lag_max is None:
@@ -319,6 +322,9 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     lag_max = int(min(lag_max, size - 1))
 
     cov_0 = autocovariance(x, size, 0, mean_val)
+    # correlation needs values that vary
+    if acf_type == 'correlation' and cov_0 == 0:
+        return None
     for i in range(lag_max+1):
         cov = autocovariance(x, size, i, mean_val)
         if acf_type == 'covariance':
-- 
2.43.0


From d036ac9e45172d291719a06948fb3b63b0ddc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:21 +0000
Subject: [PATCH 072/129] fix: revision statistics of missing values are
 missing instead of raising

---
 metcalcpy/util/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index da0e28a..b409fbb 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1284,7 +1284,10 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     data_for_stats.pop()
 
     # subtract mean from each value
-    mean_val = st.mean(remove_none(data_for_stats))
+    valid_data = remove_none(data_for_stats)
+    if len(valid_data) == 0:
+        return result
+    mean_val = st.mean(valid_data)
 
     def func(a):
         if a is not None:
-- 
2.43.0


From b2d3808da3fff2b59119897e64840e2028bd753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 073/129] fix: longitude conversion starts at positive start
 longitudes too

---
 metcalcpy/util/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b409fbb..99e5469 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1000,11 +1000,9 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
       lonsortlocs:  sorted array indices
     '''
 
-    minlon = abs(minlon_in)
-
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in + minlon), range_in) - minlon
+    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From 22fa6ab4ccf1a6d32f1bd2a7c4de6ce14ba5e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 074/129] fix: longitude conversion with indices accepts lists

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 99e5469..6bafcaf 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1002,7 +1002,7 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
 
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
+    newlons = np.mod((np.asarray(lons_in) - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From b3b68f5448ae2f1d966ab927d67982dfb133264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 075/129] fix: piecewise linear function refuses unsorted knots

---
 metcalcpy/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From c06e85013b4855586b3fe5852605ce6d69f11814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 076/129] fix: difficulty index refuses negative standard
 deviations

---
 metcalcpy/calc_difficulty_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..2bbace0 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,7 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    assert np.all(sigmaij >= EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
-- 
2.43.0


From 3feb3e43ae05c80f6d030addd33183c670303908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:33 +0000
Subject: [PATCH 077/129] fix: coordinate surfaces are converted to the units
 of the requested levels

The conversion factor was inverted, so levels requested in km were compared
with surfaces multiplied by 1000.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..dd98cdd 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From cbb966c88f6e397651874f137a78b2f248ec4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:33 +0000
Subject: [PATCH 078/129] fix: vertical interpolation keeps the weight of the
 highest level

The weight of the highest level was overwritten with zero for levels between
the two highest surfaces, and with a single level below its surface.
---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index dd98cdd..60c5d45 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From cfdbb00e85345cdbe95146465e4fe37db83d640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:33 +0000
Subject: [PATCH 079/129] fix: interpolation to a level on a coordinate surface
 gives the value there

Such a level was neither above nor below the surface and came out missing.
---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 60c5d45..fa17fc2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -167,7 +167,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
-- 
2.43.0


From 3c2975d3b4d843ee7a09f5fe458eedc66da9c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:15 +0000
Subject: [PATCH 080/129] fix: heights of a column whose surface lies on a
 pressure level are not missing

No layer of such a column was marked as the lowest one, and all of its heights
came out missing.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index fa17fc2..f979b3d 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -389,7 +389,7 @@ def height_from_pressure(config,
     """
     surface_mask.loc[{lev_dim: pressure_coord[0]}] \
         = pressure.loc[{lev_dim: pressure_coord[0]}] \
-        < pressure_convert * surface_pressure
+        <= pressure_convert * surface_pressure
     layer_height.loc[{lev_dim: pressure_coord[0]}] \
         = xr.where(surface_mask.loc[{lev_dim: pressure_coord[0]}],
                    surface_height + layer_thickness.loc[{lev_dim: pressure_coord[0]}],
@@ -402,7 +402,7 @@ def height_from_pressure(config,
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
             > pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
-            < pressure_convert * surface_pressure)
+            <= pressure_convert * surface_pressure)
 
         layer_height.loc[{lev_dim: pressure_coord[k]}] \
             = xr.where(surface_mask.loc[{lev_dim: pressure_coord[k]}],
-- 
2.43.0


From 64641ffdcf0e92c683f090efdbc88e00896231e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:42 +0000
Subject: [PATCH 081/129] fix: thickness of the lowest layer above ground
 starts at the surface pressure

The part of the layer below the ground was added to the surface height too.
---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index f979b3d..a647ee5 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -376,7 +376,8 @@ def height_from_pressure(config,
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure) \
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
-- 
2.43.0


From a5f096f442600a8f8adae6adb6ffa972232c8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 082/129] fix: meridional mean is taken over the requested
 latitudes

The band was always 60 to 90 degrees north.
---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 0ede8b76cde80c8da6b14e18e4ca167f45a272e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 083/129] fix: zonal wave covariance counts the longitudes of
 the first field

The name of the dimension was undefined and every call failed.
---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..346a59a 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -251,7 +251,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
-- 
2.43.0


From 66cfdf0d23d840d03231b91a6abf1e972419e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 084/129] fix: contributions of zonal waves keep the longitudes
 of the field

Selected waves were transformed back as if they were the lowest ones, and fields
with an odd number of longitudes failed.
---
 metcalcpy/pre_processing/waves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 346a59a..279ef53 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -183,7 +183,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
@@ -198,7 +198,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons, axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
-- 
2.43.0


From 1b56dea25d8f04aad1f8b77995b164e9ba84540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 085/129] fix: zonal wave coefficients by xrft work along any
 dimension

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 279ef53..6bc9df0 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -108,7 +108,7 @@ def _zonal_wave_coeffs_xrft(dat, dimvar):
     fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar,
                   true_phase=False, true_amplitude=False)
 
-    fc = fc.rename({'freq_longitude': 'lon_wavenum'})
+    fc = fc.rename({'freq_' + dimvar: 'lon_wavenum'})
     fc = fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})
 
     return fc
-- 
2.43.0


From 93b55b4e32151d0b454ce5dce1832b7283ff733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 086/129] fix: contributions of zonal waves are available with
 xrft

The branch was written for a package name that is never accepted, so every call
failed.
---
 metcalcpy/pre_processing/waves.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 6bc9df0..b862fff 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -189,7 +189,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         waves = fc.lon_wavenum.values
 
     recons = []
-    if (fftpkg == 'scipy'):
+    if (fftpkg in ['scipy', 'xrft']):
         new_dims = list(dat.dims)
         new_dims += ['lon_wavenum']
         new_coords = dict(dat.coords)
@@ -204,18 +204,6 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         recons = np.concatenate(recons, axis=-1)
         recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
-    elif (fftpkg == 'xarray'):
-        fc = fc.rename({'lon_wavenum': 'freq_longitude'})
-
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
-
-            kcont = xrft.ifft((fc*mask).values, dim='lon_wavenum', real_dim='lon_wavenum')
-            recons.append(kcont)
-
-        recons = xr.concat(recons, dim='lon_wavenum')
-        recons = recons.assign_coords({'lon_wavenum': waves, dimvar: dat[dimvar]})
-
     return recons.astype(dat.dtype)
 
 
-- 
2.43.0


From 05e9f2e07007919983c84cec0c91370ea1e7be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 087/129] fix: highest zonal wavenumber of an even number of
 longitudes counts once

Its amplitude and covariance were doubled.
---
 metcalcpy/pre_processing/waves.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index b862fff..3a00576 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -152,7 +152,9 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     # this is necessary because of the symmetric spectrum,
     # so all other wavenumbers except the 0th need to
     # be multipled by 2 to get the right amplitude
-    mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
+    # (the highest wavenumber of an even number of longitudes is
+    # its own mirror image and counts once, too)
+    mult_mask = np.isfinite(fc.where((fc.lon_wavenum != 0) & (2*fc.lon_wavenum != fc.nlons))) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
     phas = np.angle(fc, deg=phase_deg)
@@ -244,7 +246,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
 
-    mult_mask = np.isfinite(fc1.where(fc1.lon_wavenum != 0)) + 1
+    mult_mask = np.isfinite(fc1.where((fc1.lon_wavenum != 0) & (2*fc1.lon_wavenum != nlons))) + 1
     cov = mult_mask*np.real(fc1 * fc2.conj())/(nlons**2)
 
     return cov
-- 
2.43.0


From 6f34bcf2bc8b68332a895a56590eeff017c3a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 088/129] fix: phases of zonal waves keep their dimensions and
 coordinates

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 3a00576..7ab8ff4 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -157,7 +157,7 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     mult_mask = np.isfinite(fc.where((fc.lon_wavenum != 0) & (2*fc.lon_wavenum != fc.nlons))) + 1
 
     ampl = mult_mask*np.abs(fc) / fc.nlons
-    phas = np.angle(fc, deg=phase_deg)
+    phas = fc.copy(data=np.angle(fc, deg=phase_deg))
 
     return (ampl.astype(dat.dtype), phas.astype(dat.dtype))
 
-- 
2.43.0


From 98467d6b6ce01dbf52f3c374cf25e9f906ef64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:56 +0000
Subject: [PATCH 089/129] fix: amplitudes, phases and contributions of waves in
 integer fields are not truncated

---
 metcalcpy/pre_processing/waves.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 7ab8ff4..a8591a3 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -159,7 +159,8 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
     ampl = mult_mask*np.abs(fc) / fc.nlons
     phas = fc.copy(data=np.angle(fc, deg=phase_deg))
 
-    return (ampl.astype(dat.dtype), phas.astype(dat.dtype))
+    dtype = np.result_type(dat.dtype, np.float32)
+    return (ampl.astype(dtype), phas.astype(dtype))
 
 
 def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'):
@@ -206,7 +207,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         recons = np.concatenate(recons, axis=-1)
         recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
-    return recons.astype(dat.dtype)
+    return recons.astype(np.result_type(dat.dtype, np.float32))
 
 
 def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude', waves=None, fftpkg='scipy'):
-- 
2.43.0


From 4d35274217424c202c8269e394c5710e2c551b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:56 +0000
Subject: [PATCH 090/129] fix: reading a configuration does not change how YAML
 is read elsewhere

The tag and the resolver were added to the shared loader, so that later readings
accepted earlier tags and plain YAML loading replaced variables, too.
---
 metcalcpy/util/read_env_vars_in_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..b74cf71 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -33,7 +33,8 @@ def parse_config(path=None, data=None, tag='!ENV'):
     """
     # pattern for global vars: look for ${word}
     pattern = re.compile('.*?\${(\w+)}.*?')
-    loader = yaml.SafeLoader
+    # own loader class: other readers of yaml in this process are not affected
+    loader = type('EnvLoader', (yaml.SafeLoader,), {})
 
     # the tag will be used to mark where to start searching for the pattern
     # e.g. somekey: !ENV somestring${MYENVVAR}blah blah blah
-- 
2.43.0


From de3fc10242e1123ac486f896c8c49ca49e0a629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:56 +0000
Subject: [PATCH 091/129] fix: values of environment variables are inserted as
 they are

References inside of an inserted value were replaced as well when the variable
appeared later in the text.
---
 metcalcpy/util/read_env_vars_in_config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index b74cf71..bdb1345 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -51,12 +51,8 @@ def parse_config(path=None, data=None, tag='!ENV'):
         value = loader.construct_scalar(node)
         match = pattern.findall(value)  # to find all env variables in line
         if match:
-            full_value = value
-            for g in match:
-                full_value = full_value.replace(
-                    f'${{{g}}}', os.environ.get(g, g)
-                )
-            return full_value
+            return re.sub(r'\${(\w+)}',
+                          lambda ref: os.environ.get(ref.group(1), ref.group(1)), value)
         return value
 
     loader.add_constructor(tag, constructor_env_variables)
-- 
2.43.0


From 08e5f4361c913673d0f5bd5800989fbac7e42075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:12 +0000
Subject: [PATCH 092/129] fix: revision statistics without values on both sides
 of the median have no runs test

The runs test of such values divides by zero.
---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 6bafcaf..8c21a81 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1301,7 +1301,11 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    try:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    except ZeroDivisionError:
+        # the test needs several values on each side of the median
+        p_value = None
     if p_value is not None:
         result['ww_run'] = round(p_value, 2)
 
-- 
2.43.0


From 3f1c6c6421cf0fc2d0ea16e268b50819ea57368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:55 +0000
Subject: [PATCH 093/129] fix: combinations of value lists ignore an empty last
 list like the other ones

An empty list at the end left no combination at all.
---
 metcalcpy/util/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 8c21a81..9b9be1d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1057,6 +1057,8 @@ def create_permutations_mv(fields_values: Union[dict, list], index: int) -> list
 
     if len(values) == 0:
         return val_next
+    if len(val_next) == 0:
+        return values
 
     result = []
     for val_next_el in val_next:
-- 
2.43.0


From 52c380a5a16b0f9bcdcc91e8a5a618a677150f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:55 +0000
Subject: [PATCH 094/129] fix: numbers with a fraction are not taken for
 integers

A value given as the number 0.5 was recognized as an integer and replaced by 0.
---
 metcalcpy/util/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 9b9be1d..ba4195c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -89,6 +89,8 @@ def is_string_integer(str_int):
             True - if the input value is an integer
             False - if the input value is not an integer
     """
+    if isinstance(str_int, float):
+        return False
     try:
         int(str_int)
         return True
@@ -106,7 +108,7 @@ def is_string_strictly_float(str_float) -> bool:
             True - if the input value is strictly float
             False - if the input value is not strictly float
     """
-    if str_float is None:
+    if not isinstance(str_float, str):
         return False
     if str_float.startswith('-'):
         str_float = str_float[1:]
-- 
2.43.0


From c02d7185b374aac9813168de500b937e95ac7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:55 +0000
Subject: [PATCH 095/129] fix: points with numeric components can be told from
 derived ones

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index ba4195c..31b9ba3 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -228,7 +228,7 @@ def is_derived_point(point):
     if point is not None:
         for operation in OPERATION_TO_SIGN:
             for point_component in point:
-                if point_component.startswith((operation + '(', operation + ' (')):
+                if str(point_component).startswith((operation + '(', operation + ' (')):
                     is_derived = True
                     break
     return is_derived
-- 
2.43.0


From 2bb25e4d74a1cf39bf865bd5f763564746ab255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:55 +0000
Subject: [PATCH 096/129] fix: number of rows with a value in an unknown column
 is zero instead of an error

---
 metcalcpy/util/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 31b9ba3..9a62f3f 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -376,7 +376,8 @@ def nrow_column_data_by_name_value(input_data, columns, filters):
     """
 
     input_data_filtered = column_data_by_name_value(input_data, columns, filters)
-    return input_data_filtered.shape[0]
+    # no array when there is no such column
+    return input_data_filtered.shape[0] if isinstance(input_data_filtered, np.ndarray) else 0
 
 
 def perfect_score_adjustment(mean_stats_1, mean_stats_2, statistic, pval):
-- 
2.43.0


From 98ed681a2e07261b4279a0f792431920f5e6d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:23 +0000
Subject: [PATCH 097/129] fix: products of an image comparison can be requested
 more than once

Asking for the threshold image or the marked second image after it had been made
failed, because the truth of an array is ambiguous.
---
 metcalcpy/compare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..acb200f 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From 8d3922f1922407ad9c9c934c8f574b0f7207bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:23 +0000
Subject: [PATCH 098/129] fix: validation goes on after a pair of images that
 cannot be compared

A pair of images of different sizes stopped the run.
---
 metcalcpy/validate_mv_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..aa07796 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -161,7 +161,7 @@ def main(params):
                     compare.save_thresh_image(params['output_plots_dir']
                                               + replace_name(plot_name, 'thresh'))
 
-            except KeyError as err:
+            except (KeyError, ValueError) as err:
                 print(f'ERROR: For {plot_name} : {err}')
 
 
-- 
2.43.0


From e6379c4eef7cdd24e7193503f978d30b20d88c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:23 +0000
Subject: [PATCH 099/129] fix: validation keeps the files of plots whose names
 start alike

The scripts and data of a different plot were removed with those of a plot whose
name is a prefix of its name.
---
 metcalcpy/validate_mv_python.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index aa07796..565bae8 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -135,9 +135,9 @@ def main(params):
             # remove new XML
             os.remove(new_xml_file)
             # remove new script
-            delete_similar_files(params['output_scripts_dir'], plot_name)
+            delete_similar_files(params['output_scripts_dir'], replace_name(plot_name, 'py'))
             # remove new data files
-            delete_similar_files(params['output_data_dir'], plot_name)
+            delete_similar_files(params['output_data_dir'], replace_name(plot_name, 'py'))
 
         else:
             # compare images
@@ -151,9 +151,9 @@ def main(params):
                     # remove new XML
                     os.remove(new_xml_file)
                     # remove new script
-                    delete_similar_files(params['output_scripts_dir'], plot_name)
+                    delete_similar_files(params['output_scripts_dir'], replace_name(plot_name, 'py'))
                     # remove new data files
-                    delete_similar_files(params['output_data_dir'], plot_name)
+                    delete_similar_files(params['output_data_dir'], replace_name(plot_name, 'py'))
 
                 else:
                     print(f'ERROR: For {plot_name} images are different')
-- 
2.43.0


From f14844b0df9b858237858a53596f4b759bfcb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:23 +0000
Subject: [PATCH 100/129] fix: postfix of a file name comes before the
 extension only

Names with several dots got a postfix at each of them, and the files of all plots
with the same first part were removed.
---
 metcalcpy/validate_mv_python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 565bae8..c3f9f34 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -51,7 +51,8 @@ def replace_name(old_name, postfix):
        Returns:
            file name with postfix
     """
-    return old_name.replace(".", "_" + postfix + ".")
+    root, extension = os.path.splitext(old_name)
+    return root + "_" + postfix + extension
 
 
 def clean(params):
@@ -174,7 +175,7 @@ def delete_similar_files(directory, file_name):
 
     """
     for filename in glob.glob(directory
-                              + file_name.split('.')[0]
+                              + glob.escape(os.path.splitext(file_name)[0])
                               + '*'):
         os.remove(filename)
 
-- 
2.43.0


From 623b35a52bfe5d583394f585e0973912d2aedc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:23 +0000
Subject: [PATCH 101/129] fix: validation directories may be given without a
 trailing slash

Files were written next to the output directories, and input files not found, when
the directories are given as in the example of the documentation.
---
 metcalcpy/validate_mv_python.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index c3f9f34..8934b9d 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -105,8 +105,8 @@ def main(params):
             = replace_name(doc.getElementsByTagName('data_file')[0].firstChild.nodeValue, 'py')
         doc.getElementsByTagName('r_file')[0].firstChild.nodeValue \
             = replace_name(doc.getElementsByTagName('r_file')[0].firstChild.nodeValue, 'py')
-        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = params['mv_home'] + 'R_tmpl'
-        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = params['mv_home'] + 'R_work'
+        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_tmpl')
+        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_work')
         doc.getElementsByTagName('plots')[0].firstChild.nodeValue = params['output_plots_dir']
         doc.getElementsByTagName('user')[0].firstChild.nodeValue = params['db_user']
         doc.getElementsByTagName('password')[0].firstChild.nodeValue = params['db_pass']
@@ -114,7 +114,7 @@ def main(params):
         doc.getElementsByTagName('scripts')[0].firstChild.nodeValue = params['output_scripts_dir']
 
         # save new XML
-        new_xml_file = params['output_xml_dir'] + os.path.basename(replace_name(file, 'py'))
+        new_xml_file = os.path.join(params['output_xml_dir'], os.path.basename(replace_name(file, 'py')))
         with open(new_xml_file, "w") as xml_file:
             doc.writexml(xml_file)
 
@@ -126,7 +126,7 @@ def main(params):
         (output, err) = process.communicate()
         p_status = process.wait()
 
-        new_image_path = params['output_plots_dir'] + replace_name(plot_name, 'py')
+        new_image_path = os.path.join(params['output_plots_dir'], replace_name(plot_name, 'py'))
 
         # check if both images are present or not
         if not os.path.exists(original_plot_path) \
@@ -159,8 +159,8 @@ def main(params):
                 else:
                     print(f'ERROR: For {plot_name} images are different')
                     # add more diagnostic images
-                    compare.save_thresh_image(params['output_plots_dir']
-                                              + replace_name(plot_name, 'thresh'))
+                    compare.save_thresh_image(os.path.join(params['output_plots_dir'],
+                                                           replace_name(plot_name, 'thresh')))
 
             except (KeyError, ValueError) as err:
                 print(f'ERROR: For {plot_name} : {err}')
@@ -174,9 +174,8 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + glob.escape(os.path.splitext(file_name)[0])
-                              + '*'):
+    for filename in glob.glob(os.path.join(glob.escape(directory),
+                                           glob.escape(os.path.splitext(file_name)[0]) + '*')):
         os.remove(filename)
 
 
@@ -197,7 +196,7 @@ def get_test_xml(params):
     # for each fie in the directory check the date and extension
     # and include it to the output list if it fits the criteria
     for file in os.listdir(params['input_xml_dir']):
-        file_name = params['input_xml_dir'] + file
+        file_name = os.path.join(params['input_xml_dir'], file)
         filetime = dt.datetime.fromtimestamp(os.path.getmtime(file_name))
         extension = os.path.splitext(file)[1]
         if start <= filetime.date() <= end and extension == '.xml':
-- 
2.43.0


From c3003668b4d9d012877581396f20dd5cf1379660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:21 +0000
Subject: [PATCH 102/129] fix: groups of blocked longitudes across the prime
 meridian are kept

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..b0c3446 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -170,8 +170,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From 27c70f794d6c17aaeea40df0b131d353556cd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:21 +0000
Subject: [PATCH 103/129] fix: configured distance joins blocked longitudes
 into groups

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index b0c3446..6725a1a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -141,9 +141,8 @@ class BlockingCalculation():
         for i in np.arange(0,len(GIBL[:,0,0]),1):
             for k in np.arange(0,len(GIBL[0,:,0]),1):
                 gibli = np.zeros(len(GIBL[0,0,:]))
-                thresh = crit/2.0
+                thresh = self.ibl_dist
                 a = ibl[i,k,:]
-                db = self.ibl_dist
                 ibli = np.where(a==1)[0]
                 if len(ibli)==0:
                     continue
-- 
2.43.0


From ef0f639bbfa5415e57064b42cc7af0333db698db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:21 +0000
Subject: [PATCH 104/129] fix: seasons without persistent groups have no blocks

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6725a1a..c7c735b 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -265,10 +265,12 @@ class BlockingCalculation():
             A = np.concatenate((A,temp2),axis=0)
 
         A = A[1:]
+        if len(A) == 0:
+            return np.zeros((len(ibl[:,0,0]),len(ibl[0,:,0]),360))
 
         ######### - Getting rid of non-consectutve Time steps which would prevent blocking - #################
-        dd=[]
-        dy = []
+        dd = np.empty(0)
+        dy = np.empty(0)
         dA = A[0]
         dA = np.expand_dims(dA,axis=0)
         ct=0
-- 
2.43.0


From e58f49e6f39b0bb4b3ef317b5bccac1401febb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:21 +0000
Subject: [PATCH 105/129] fix: travel of a block is measured around the circle
 of longitudes

---
 .../contributed/blocking_weather_regime/Blocking.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index c7c735b..375b87b 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -300,9 +300,11 @@ class BlockingCalculation():
         middle=[]
         for l in np.arange(0,len(dAfin),1):
             temp = np.where(dAfin[l]==1)[0]
-            if len(temp) % 2 == 0:
-                temp = np.append(temp,0)
-            midtemp = np.median(temp)
+            gap = np.where(np.diff(temp) > 1)[0]
+            if len(gap) > 0:
+                # the group lies across the prime meridian
+                temp = np.append(temp[gap[0]+1:],temp[:gap[0]+1]+lonlen)
+            midtemp = temp[(len(temp)-1)//2] % lonlen
             middle = np.append(middle,midtemp)
 
 
@@ -391,7 +393,8 @@ class BlockingCalculation():
             diffb = []
             start = middle[bb[0].astype(int)]
             for bbs in bb:
-                diffb = np.append(diffb, start - middle[bbs.astype(int)])
+                dist = np.abs(start - middle[bbs.astype(int)])
+                diffb = np.append(diffb, np.minimum(dist, lonlen - dist))
             loc = np.where(np.abs(diffb) > distthresh)[0]
             if len(loc)==0:
                 newblock = newblock +[bb]
-- 
2.43.0


From 79d4686d9e53cd6aceac899e563cfb9b2bbd90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:01 +0000
Subject: [PATCH 106/129] fix: the trend of the heights is removed before
 weather regimes are found

---
 .../contributed/blocking_weather_regime/WeatherRegime.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
index cdab30f..8e662f2 100644
--- a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
+++ b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
@@ -54,8 +54,8 @@ class WeatherRegimeCalculation():
         #Remove trend and seasonal cycle
         atemp = np.zeros(arr_shape)
         for i in np.arange(0,len(indata[0,:,0,0]),1):
-            atemp[:,i] = signal.detrend(atemp[:,i],axis=0)
-            atemp[:,i] = (indata[:,i] - np.nanmean(indata[:,i],axis=0)) * weightf
+            atemp[:,i] = signal.detrend(indata[:,i],axis=0)
+            atemp[:,i] = (atemp[:,i] - np.nanmean(atemp[:,i],axis=0)) * weightf
 
         a = atemp
         atemp=0
-- 
2.43.0


From 52ae4069f12b6136cea613890d0f800f974e6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:01 +0000
Subject: [PATCH 107/129] fix: every forecast regime is matched to one observed
 regime

---
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index 1c306c6..506d8be 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -157,6 +157,8 @@ def reorder_fcst_regimes_correlate(kmeans_obs,kmeans_fcst,perc_fcst,wrc_fcst,wrn
         for owr in np.arange(wrnum_fcst):
             curcorr = stats.pearsonr(kmeans_obs[wrr,:,:].flatten(),kmeans_fcst[owr,:,:].flatten())
             corr_arr[owr] = curcorr[0]
+        # a forecast regime is matched once
+        corr_arr[matching_order[:wrr]-1] = -np.inf
         matching_order[wrr] = corr_arr.argmax()+1
 
     # Call the reorder_fcst_regimes to reorder
-- 
2.43.0


From 05f8609abb2ae8006aa4b4d9ea6a5cf47d05d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:28 +0000
Subject: [PATCH 108/129] fix: masked values of a field are missing values

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py       | 2 +-
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 375b87b..aaa1fbb 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -59,7 +59,7 @@ class BlockingCalculation():
         yrlen = len(z500_anom_4d[:,0,0,0])
         mstd = np.nanstd(z500_anom_4d,axis=1)
         mhweight = mstd * weightf
-        cbli = np.argmax(mhweight,axis=1)
+        cbli = np.argmax(np.nan_to_num(mhweight),axis=1)
         CBL = np.zeros((yrlen,len(lons)))
         for j in np.arange(0,yrlen,1):
             CBL[j,:] = lats[cbli[j,:]]
diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index 506d8be..fa04ecb 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -118,7 +118,7 @@ def read_nc_met(infiles,invar,nseasons,dseasons):
         init_list.append(init_time_str)
         valid_list.append(valid_time_str)
         lead_list.append(lead_str)
-        var_3d[i,:,:] = new_invar
+        var_3d[i,:,:] = np.ma.filled(new_invar.astype(np.float64),np.nan)
 
     var_4d = np.reshape(var_3d,[nseasons,dseasons,len(var_3d[0,:,0]),len(var_3d[0,0,:])])
 
-- 
2.43.0


From 1d11256bee72609cde1e947fd7bc3ff486cf053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 109/129] fix: indices refuse data on another grid than the
 patterns

The coordinates were compared by label, which keeps only the common ones, so
different grids always looked equal.
---
 .../contributed/rmm_omi/compute_mjo_indices.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..7abe48a 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon.values, eoflon.values):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon.values, eoflon.values):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon.values, eoflon.values):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat.values, eoflat.values):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon.values, eoflon.values):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat.values, EOF1.lat.values):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon.values, EOF1.lon.values):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
-- 
2.43.0


From 38793d3a1434af5cd7b26866df816476e948f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 110/129] fix: frequencies of the band-pass filter follow the
 order of the transform

---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 7abe48a..d319039 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -13,7 +13,7 @@ import numpy as np
 import xarray as xr
 import datetime
 import pandas as pd
-from scipy.fftpack import rfft, irfft, fftfreq
+from scipy.fftpack import rfft, irfft, rfftfreq
 from scipy.signal import detrend
 
 def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
@@ -257,7 +257,7 @@ def bandpass_filter_3D(data, time, a, b):
 
     # set up frequency array for masking
 
-    W = fftfreq(data[:,0,0].size, dt)
+    W = rfftfreq(data[:,0,0].size, dt)
     W = np.tile(W,(nm,nl,1))
     W = np.moveaxis(W,2,0)
     P = 1 / W
-- 
2.43.0


From 8430826ebfdf7519a6c617b8d3f63354e0aa9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 111/129] fix: spectral filter of an odd number of times or
 longitudes

The spectrum was shifted by one coefficient when the number was odd.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index d319039..ae4d6f1 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -441,8 +441,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
             fourier_fft = np.fft.fft2(np.squeeze(data[:,idx_m,:]))
             # reordering of spectrum is done to be consistent with the original kiladis ordering.
             fourier_fft = np.fft.fftshift(fourier_fft, axes=(0, 1))
-            fourier_fft = np.roll(fourier_fft, int(nt / 2), axis=0)
-            fourier_fft = np.roll(fourier_fft, int(nl / 2), axis=1)
+            fourier_fft = np.roll(fourier_fft, -int(nt / 2), axis=0)
+            fourier_fft = np.roll(fourier_fft, -int(nl / 2), axis=1)
 
             # ### Very similar to original Kiladis Code
             fourier_fft_filtered = fourier_fft
@@ -476,8 +476,8 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
 
             # ############################ FFT Backward transformation ############
             # #reorder spectrum back from kiladis ordering to python ordering
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nt / 2), axis=0)
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nl / 2), axis=1)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nt / 2), axis=0)
+            fourier_fft_filtered = np.roll(fourier_fft_filtered, int(nl / 2), axis=1)
             fourier_fft_filtered = np.fft.ifftshift(fourier_fft_filtered, axes=(0, 1))
             filtered_olr = np.fft.ifft2(fourier_fft_filtered)
             filtered_olr = np.real(filtered_olr)
-- 
2.43.0


From 5c349a5694251be3d8e0772d8447982d97e0a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 112/129] fix: temporal filters leave the data of the caller
 unchanged

---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index ae4d6f1..71e681a 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear',overwrite_data=False)
 
     # taper time window and pad with zeros
     orig_data = data
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=False)
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
-- 
2.43.0


From c596fd8e9e668b59790dd9d452b5b0cca99ec33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 113/129] fix: wave skill leaves the activity unchanged and
 works for one line or lead time

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..babcf8d 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -212,7 +212,7 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    skill = act[:, 1::, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
-- 
2.43.0


From bf962548e66706a2630774ad873867613279cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:32 +0000
Subject: [PATCH 114/129] fix: patterns of data whose time is not the first
 dimension

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index babcf8d..5e1ae86 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -417,7 +417,7 @@ def eof_comp(data, neof, opt, dim=0):
 
     # move dimension dim to 0
     if dim != 0:
-        data_reord = np.moveaxis(data, dim, 0)
+        data_reord = data.transpose(data.dims[dim], ...)
     else:
         data_reord = data
 
-- 
2.43.0


From dbfa9804148764835385bc7471fe040df2be73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 115/129] fix: 1-2-1 smoothing of series with gaps or a single
 value

A missing value made the first one missing, and a value without any neighbor
was lost or read beyond the end.
---
 metcalcpy/contributed/spacetime/spacetime.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..f3cfda4 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -328,14 +328,10 @@ def smooth121_1D(array_in):
     #array_out[1:-1] = sma
 
     for i in np.arange(0, len(temp), 1):
-        if np.isnan(temp[i]):
-            array_out[0] = np.nan
-        elif i == 0 or np.isnan(temp[i-1]):
-            array_out[i] = (3*temp[i]+temp[i+1])/4
-        elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-            array_out[i] = (3 * temp[i] + temp[i-1]) / 4
-        else:
-            array_out[i] = (temp[i+1] + 2 * temp[i] + temp[i-1]) / 4
+        # a missing neighbor is replaced by the point itself
+        before = temp[i] if i == 0 or np.isnan(temp[i-1]) else temp[i-1]
+        after = temp[i] if i == (len(temp)-1) or np.isnan(temp[i+1]) else temp[i+1]
+        array_out[i] = (after + 2 * temp[i] + before) / 4
 
     return array_out
 
-- 
2.43.0


From e6b1c882e9b28c25aff6b02c1f6d5742249123fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 116/129] fix: all spectra have values at the highest frequency

For even numbers of times and longitudes only the first power spectrum had.
---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index f3cfda4..f262ac7 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
-- 
2.43.0


From ce3f01059a2db5dd095308e2fdeea452961ffae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 117/129] fix: cross-spectra of segments of any length

The spectra for positive frequencies had an extra row that repeated the time
mean, or failed, unless half the length was even.
---
 metcalcpy/contributed/spacetime/spacetime.py | 64 ++++++--------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index f262ac7..28d4481 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -172,46 +172,25 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    # test if longitude is odd or even, fft algorithm
+    # returns the Nyquist wavenumber once for even NL and twice
+    # if it is odd
+    nfreq = int(NT / 2) + 1
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, :NL] = PX
+        STC[1, :, :NL] = PY
+        STC[2, :, :NL] = CXY
+        STC[3, :, :NL] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :, 1:NL + 1] = PX
+        STC[1, :, 1:NL + 1] = PY
+        STC[2, :, 1:NL + 1] = CXY
+        STC[3, :, 1:NL + 1] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -399,10 +378,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # test if time and longitude are odd or even, fft algorithm
     # returns the Nyquist frequency once for even NT or NL and twice
     # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    nfreq = int(segLen/2) + 1
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -411,7 +387,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.fft.rfftfreq(segLen)
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
-- 
2.43.0


From fb8d44a601cfb7af68f0309bd1297cec423ff473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 118/129] fix: symmetric and anti-symmetric parts for ascending
 latitudes

The rows came out in the opposite order, and the anti-symmetric part with the
opposite sign, when latitudes run from south to north.
---
 metcalcpy/contributed/spacetime/spacetime.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 28d4481..0e9b21c 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -209,21 +209,13 @@ def get_symmasymm(X, lat, opt=False):
         NT, NM, NL = X.shape
         if opt == 'symm':
             x = X[:, lat[:] >= 0, :]
-            if len(lat) % 2 == 1:
-                for ll in range(NM // 2 + 1):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
-            else:
-                for ll in range(NM // 2):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
+            for row, ll in enumerate(np.where(lat[:] >= 0)[0]):
+                x[:, row, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
         else:
             if opt == 'asymm' or opt == 'anti-symm':
                 x = X[:, lat[:] > 0, :]
-                if len(lat) % 2 == 1:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
-                else:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
+                for row, ll in enumerate(np.where(lat[:] > 0)[0]):
+                    x[:, row, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
     else:
         print("Please provide a valid option: symm or asymm.")
 
-- 
2.43.0


From 987db15e849c21068326642f1a0ad3bcb6bdcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 119/129] fix: wave filter with only one equivalent depth given

The speed of the given depth was never set.
---
 metcalcpy/contributed/spacetime/spacetime.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 0e9b21c..b6ac063 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -477,16 +477,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    c = np.sqrt(g * np.array([np.nan if h == -9999 else h for h in (hMin, hMax)]))
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
-- 
2.43.0


From 5cac27096f57181746f0c289a14f1d7ed87d3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 120/129] fix: wave filter keeps the requested wavenumbers

Reversing the coefficients moved every wavenumber by one.
---
 metcalcpy/contributed/spacetime/spacetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index b6ac063..29f3be0 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -440,7 +440,8 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
     fftData = np.copy(fftIn)
     fftData = np.transpose(fftData)
     nf, nk = fftData.shape  # frequency, wavenumber array
-    fftData = fftData[:, ::-1]
+    # eastward wavenumbers in the order of the transform
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
 
     nt = (nf - 1) * 2
     jMin = int(round(nt / (tMax * obsPerDay)))
@@ -535,7 +536,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         if jMaxWave < nf:
             fftData[jMaxWave + 1:nf, i] = 0
 
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData, -1, axis=1)[:, ::-1]
     fftData = np.transpose(fftData)
 
     return fftData
-- 
2.43.0


From 0ad3ce7d7a21ce544adaf3979fb52f99c0925865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 121/129] fix: wave filter for a single wavenumber

It kept all wavenumbers.
---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 29f3be0..0e9e020 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -468,7 +468,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         fftData[0:jMin, :] = 0
     if jMax < nf:
         fftData[jMax + 1:nf, :] = 0
-    if iMin < iMax:
+    if iMin < iMax or kMin == kMax:
         # Set things outside the wavenumber range to zero, this is more normal
         if iMin > 0:
             fftData[:, 0:iMin] = 0
-- 
2.43.0


From 787be0551f197232a4fd368f6e1b1f3edd6b8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 122/129] fix: wave filter keeps an odd number of times

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 0e9e020..5998b11 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -564,7 +564,7 @@ def kf_filter(data, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
 
     fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName)
 
-    datafilt = np.fft.irfft2(fftfilt, axes=(0, 1))
+    datafilt = np.fft.irfft2(fftfilt, s=data.shape, axes=(0, 1))
     datafilt = np.transpose(datafilt, axes=[1, 0])
 
     return datafilt
-- 
2.43.0


From e62cad41144205e4a480f5475c35dc65a59698b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 123/129] fix: cross-spectra report inputs of different size

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 5998b11..20abf7a 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -349,7 +349,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
 
     if any([ntim - ntim1, nlat - nlat1, mlon - mlon1]) != 0:
         print("mjo_cross: X and Y must be same size")
-        print("           dimX=" + [ntim, nlat, mlon] + "   dimY=" + [ntim1, nlat1, mlon1])
+        print("           dimX=" + str([ntim, nlat, mlon]) + "   dimY=" + str([ntim1, nlat1, mlon1]))
         return
 
     # make a local copy (time,lat,lon)
-- 
2.43.0


From 8b0f5aba52075b8f72af121d1ba6d031400ada32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:48 +0000
Subject: [PATCH 124/129] fix: changing the longitude convention keeps all
 longitudes and the input

The new longitudes were written over the ones still to be read.
---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 2 +-
 metcalcpy/contributed/tropical_diagnostics/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..430d65b 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..55eb85c 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
-- 
2.43.0


From 38aa863d1090ccd078d048e28f29b00685cb2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:15:56 +0000
Subject: [PATCH 125/129] fix: data follow their longitudes when the convention
 changes

They were moved in the wrong direction, which shows unless both halves have
the same number of longitudes.
---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 4 ++--
 metcalcpy/contributed/tropical_diagnostics/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index 430d65b..405013e 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -81,7 +81,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, -nlonneg, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -96,7 +96,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, -nlonpos, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 55eb85c..a818966 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -79,7 +79,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, -nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -92,7 +92,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, -nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
-- 
2.43.0


From 02779b751d7eb5b99da158073f1ede6e356f60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:55 +0000
Subject: [PATCH 126/129] fix: report the number of outliers of a Shepherd
 correlation

The returned table is documented to hold the number of removed pairs.
The column was in the output order but never filled.
---
 metcalcpy/util/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index f226871..8c8e36d 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -267,6 +267,10 @@ def corr(x, y, tail='two-sided', method='pearson', **kwargs):
          'power': pr
          }
 
+    # Number of outliers that were removed
+    if method == 'shepherd':
+        stats_dict['outliers'] = int(outliers.sum())
+
     # Compute the BF10 for Pearson correlation only
     if method == 'pearson':
         stats_dict['BF10'] = bayesfactor_pearson(r, nx, tail=tail)
-- 
2.43.0


From 8c0c1bf0a3a8bb9e01cd3526cc547ba0ddefb851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:53 +0000
Subject: [PATCH 127/129] fix: write the valid time dimension of interpolated
 data

A labelled array is not a time stamp, so the option always failed.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index a647ee5..742ddb7 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -504,9 +504,9 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
         dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
+            ds['valid_time'].values.astype('O')/1e9)
         dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+            ds['init_time'].values.astype('O')/1e9)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
-- 
2.43.0


From cba9f58768e7d15a70e88a6cb506b9d22e496844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:53 +0000
Subject: [PATCH 128/129] fix: the forecast reference time of a file does not
 depend on the time zone

The time is written as seconds since 1970 UTC, but was read as local time.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 742ddb7..9073213 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -44,7 +44,7 @@ import sys
 import argparse
 import logging
 import yaml
-from datetime import datetime
+from datetime import datetime, timezone
 import numpy as np
 import xarray as xr  # http://xarray.pydata.org/
 import netCDF4 as nc
@@ -559,7 +559,7 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         mm = int(yyyymmddhh_str[4:6])
         dd = int(yyyymmddhh_str[6:8])
         hh = int(yyyymmddhh_str[8:10])
-        ref_time_obj = datetime(yyyy, mm, dd, hh)
+        ref_time_obj = datetime(yyyy, mm, dd, hh, tzinfo=timezone.utc)
         ref_time_coord[:] = ref_time_obj.timestamp()
 
 
-- 
2.43.0


From 7788f68b7802e872dedf550d17513425d8cffc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:36 +0000
Subject: [PATCH 129/129] fix: Kelvin wave structure on a latitude band whose
 northernmost cell is nearest the equator

The southward recurrence started at the cell nearest the equator itself and
read the cell north of it, which does not exist when that cell is the last
one (IndexError). The cell is already set, so start at its southern neighbour.
---
 metcalcpy/contributed/mjo_enso/compute_mjo_enso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
index 9a47585..d88e1b8 100644
--- a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
+++ b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
@@ -98,7 +98,7 @@ def calc_wpower_MJO(u,v,uflx_mjo,vflx_mjo):
      for j in range(jnot1,len(lat_ws)):
          phik[j] = phik[j-1]*(dyinv-yy[j-1])/(dyinv+yy[j])
 
-     for j in range(jnot+1):
+     for j in range(1,jnot+1):
          k=jnot-j
          phik[k]=phik[k+1]*(dyinv+yy[k+1])/(dyinv-yy[k])
 
-- 
2.43.0

