From c2b601a32d7f0be5c26e9faf3a90b039fce72557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 01/77] fix: ignore buy orders whose affordable size is zero
 after applying size granularity

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..dbc1962 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -176,7 +176,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From 2aedcd04c2839978d94ec6aeb3cfd33b3451e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 02/77] fix: ignore orders of zero percent instead of filling
 them with NaN size

---
 vectorbt/portfolio/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index dbc1962..cba7479 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -462,7 +462,8 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     if order_size_type == SizeType.Percent:
         # Percentage of resources
         percent = abs(order_size)
-        order_size = np.sign(order_size) * np.inf
+        if order_size != 0:
+            order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
 
     if order_size > 0:
-- 
2.43.0


From 35ad72f279e83fca6399ba0212650ce50ee72581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 03/77] fix: never sell more than the held position in
 long-only direction when sizing by percent

---
 vectorbt/portfolio/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index cba7479..42707c6 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -275,6 +275,9 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            # Can't sell more than there is
+            size_limit = min(exec_state.position, size_limit)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From bca16514784b6345f16ea8271bc227c158667181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 04/77] fix: limit cash for covering a locked short position
 when covering doesn't consume free cash

---
 vectorbt/portfolio/nb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 42707c6..5222eaa 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -104,8 +104,16 @@ def buy_nb(
             elif cover_free_cash < 0:
                 # Not enough cash to close out the short position
                 avg_entry_price = exec_state.debt / abs(exec_state.position)
-                max_short_size = (exec_state.free_cash - fixed_fees) / (adj_price * (1 + fees) - 2 * avg_entry_price)
-                cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                unit_req_cash = adj_price * (1 + fees) - 2 * avg_entry_price
+                if unit_req_cash > 0:
+                    max_short_size = (exec_state.free_cash - fixed_fees) / unit_req_cash
+                    cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                elif exec_state.free_cash >= 0:
+                    # Free cash would turn negative because of the fixed fees regardless of size
+                    cash_limit = 0.0
+                else:
+                    # Closing out the short position doesn't require free cash, but opening a long one does
+                    cash_limit = cover_req_cash
             else:
                 # Exact amount of cash to close out the short position
                 cash_limit = exec_state.cash
-- 
2.43.0


From b282a4aadfd7b416547fd8188f283642cedf046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 05/77] fix: replace the previous asset value of the same
 column in value_in_sim_order_nb

---
 vectorbt/portfolio/nb.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 5222eaa..a063824 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6833,25 +6833,24 @@ def value_in_sim_order_nb(
         group_len = to_col - from_col
         asset_value_now = 0.0
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
             col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            if i > 0:
+                # Replace the last asset value of the same column, wherever it was in the previous sequence
+                if np.isnan(asset_value[i - 1, col]):
+                    nan_count -= 1
+                else:
+                    asset_value_now -= asset_value[i - 1, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From ee592fef447fc653751e1ae6079a90affbe25493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 06/77] fix: do not require a closing price for the total
 profit of a closed position

---
 vectorbt/portfolio/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index a063824..1172ec9 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6910,6 +6910,9 @@ def total_profit_nb(
                 cash[col] = add_nb(cash[col], order_cash)
 
     total_profit = cash + assets * close[-1, :]
+    for col in range(total_profit.shape[0]):
+        if assets[col] == 0:
+            total_profit[col] = cash[col]  # for price being NaN
     total_profit[zero_mask] = 0.0
     return total_profit
 
-- 
2.43.0


From 62933b59facc824ac235bd9500fa415b59fbc293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 07/77] fix: compare the number of groups rather than columns
 in is_group_count_changed

---
 vectorbt/base/column_grouper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/column_grouper.py b/vectorbt/base/column_grouper.py
index 23e0a28..6f63275 100644
--- a/vectorbt/base/column_grouper.py
+++ b/vectorbt/base/column_grouper.py
@@ -221,7 +221,9 @@ class ColumnGrouper(Configured):
         if group_by is None or (group_by is False and self.group_by is None):
             return False
         if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
-            return len(group_by) != len(self.group_by)
+            groups1 = get_groups_and_index(self.columns, group_by)[1]
+            groups2 = get_groups_and_index(self.columns, self.group_by)[1]
+            return len(groups1) != len(groups2)
         return True
 
     def check_group_by(
-- 
2.43.0


From 4c414026ecee58670177d677b0e8fb0eeb69c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 08/77] fix: keep the columns of each group when selecting more
 than two groups

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..4d73dcd 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens[:-1])] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From d5521a5a956bbb3e657d973268aecda4b69d5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 09/77] fix: do not drop an active drawdown when the last value
 is missing

---
 vectorbt/generic/nb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..7531071 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1854,13 +1854,18 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_idx = -1
         peak_val = ts[0, col]
         valley_val = ts[0, col]
+        last_val = ts[0, col]
         store_record = False
         status = -1
 
         for i in range(ts.shape[0]):
             cur_val = ts[i, col]
+            if i == ts.shape[0] - 1 and drawdown_started and np.isnan(cur_val):
+                # Still running but the current value is missing, take the last known one
+                cur_val = last_val
 
             if not np.isnan(cur_val):
+                last_val = cur_val
                 if np.isnan(peak_val) or cur_val >= peak_val:
                     # Value increased
                     if not drawdown_started:
-- 
2.43.0


From 2ad322d7e6d19b26f28de2f9a63fc6cfd2957a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 10/77] fix: avoid division by zero in range_coverage_nb when
 all ranges are empty

---
 vectorbt/generic/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 7531071..9748978 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1772,7 +1772,8 @@ def range_coverage_nb(
                 temp[start_idx_arr[ridx] : end_idx_arr[ridx]] += 1
         if overlapping:
             if normalize:
-                out[col] = np.sum(temp > 1) / np.sum(temp > 0)
+                if np.any(temp > 0):  # otherwise, all ranges are empty
+                    out[col] = np.sum(temp > 1) / np.sum(temp > 0)
             else:
                 out[col] = np.sum(temp > 1)
         else:
-- 
2.43.0


From 2ca52959be4bbfabb66ef35a6161ad0bfdf2ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 11/77] fix: ignore missing returns in cond_value_at_risk_1d_nb
 like the other tail metrics

---
 vectorbt/returns/nb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/returns/nb.py b/vectorbt/returns/nb.py
index 3a420a7..67895bb 100644
--- a/vectorbt/returns/nb.py
+++ b/vectorbt/returns/nb.py
@@ -633,6 +633,7 @@ def rolling_value_at_risk_nb(
 @njit(cache=True)
 def cond_value_at_risk_1d_nb(returns: tp.Array1d, cutoff: float = 0.05) -> float:
     """Conditional value at risk (CVaR) of a returns stream."""
+    returns = returns[~np.isnan(returns)]
     if len(returns) == 0:
         return np.nan
     cutoff_index = int((len(returns) - 1) * cutoff)
-- 
2.43.0


From 260518707e8dcff166a9d466da14c490a04dedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 12/77] fix: resample returns when some of the bins are empty

---
 vectorbt/returns/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..aeb54b6 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -306,7 +306,7 @@ class ReturnsAccessor(GenericAccessor):
         engine = engine if engine is not None else self.engine
         returns_2d = self.to_2d_array()
         resampled = self.obj.resample(freq, **kwargs)
-        out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
+        out = np.full((len(resampled.indices), returns_2d.shape[1]), np.nan)
         for i, idxs in enumerate(resampled.indices.values()):
             out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
         out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
-- 
2.43.0


From a8b7f9e5348a4bbb9364d13e7f47d12c3a2590c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 13/77] fix: expanding mean/std with more required observations
 than rows yield NaN instead of raising

---
 vectorbt/generic/nb.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 9748978..58f56e0 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1077,13 +1077,19 @@ def expanding_mean_1d_nb(a: tp.Array1d, minp: int = 1) -> tp.Array1d:
     """Return expanding mean.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).mean()`."""
-    return rolling_mean_1d_nb(a, a.shape[0], minp=minp)
+    window = a.shape[0]
+    if minp is not None:
+        window = max(window, minp)
+    return rolling_mean_1d_nb(a, window, minp=minp)
 
 
 @njit(cache=True)
 def expanding_mean_nb(a: tp.Array2d, minp: int = 1) -> tp.Array2d:
     """2-dim version of `expanding_mean_1d_nb`."""
-    return rolling_mean_nb(a, a.shape[0], minp=minp)
+    window = a.shape[0]
+    if minp is not None:
+        window = max(window, minp)
+    return rolling_mean_nb(a, window, minp=minp)
 
 
 @njit(cache=True)
@@ -1091,13 +1097,19 @@ def expanding_std_1d_nb(a: tp.Array1d, minp: int = 1, ddof: int = 0) -> tp.Array
     """Return expanding standard deviation.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).std(ddof=ddof)`."""
-    return rolling_std_1d_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    window = a.shape[0]
+    if minp is not None:
+        window = max(window, minp)
+    return rolling_std_1d_nb(a, window, minp=minp, ddof=ddof)
 
 
 @njit(cache=True)
 def expanding_std_nb(a: tp.Array2d, minp: int = 1, ddof: int = 0) -> tp.Array2d:
     """2-dim version of `expanding_std_1d_nb`."""
-    return rolling_std_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    window = a.shape[0]
+    if minp is not None:
+        window = max(window, minp)
+    return rolling_std_nb(a, window, minp=minp, ddof=ddof)
 
 
 # ############# Apply functions ############# #
-- 
2.43.0


From d9fd2bc7504bc868ca6fac1717d8143d739ac736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 14/77] fix: OHLC stop exits with out_dict fail on read-only
 arrays of pandas 3

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..d7b869d 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1072,8 +1072,8 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        stop_price_out = np.require(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64, requirements=["C", "W"])
+        stop_type_out = np.require(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64, requirements=["C", "W"])
 
         # Perform generation
         if chain:
-- 
2.43.0


From 9bad3795459c636089a58951653359a52401cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 15/77] fix: label unstacked frames in the order their values
 are placed

---
 vectorbt/base/reshape_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/reshape_fns.py b/vectorbt/base/reshape_fns.py
index 6b9aa3c..03410ac 100644
--- a/vectorbt/base/reshape_fns.py
+++ b/vectorbt/base/reshape_fns.py
@@ -936,8 +936,8 @@ def unstack_to_df(
             column_levels = 1
 
     # Build new index and column hierarchies
-    new_index = index_fns.select_levels(arg.index, index_levels).unique()
-    new_columns = index_fns.select_levels(arg.index, column_levels).unique()
+    new_index = index_fns.select_levels(sr.index, index_levels).unique().sort_values()
+    new_columns = index_fns.select_levels(sr.index, column_levels).unique().sort_values()
 
     # Unstack and post-process
     unstacked = unstack_to_array(sr, levels=(index_levels, column_levels))
-- 
2.43.0


From 5f9a4ff88bebe2d80cdd4637f12bdc08f8eaa459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 16/77] fix: rename_levels must not rename the index passed to
 it

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 7dad4c0..1fc9525 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -184,7 +184,7 @@ def rename_levels(index: tp.Index, name_dict: tp.Dict[str, tp.Any], strict: bool
                 raise KeyError(f"Level '{k}' not found")
         else:
             if index.name == k:
-                index.name = v
+                index = index.rename(v)
             elif strict:
                 raise KeyError(f"Level '{k}' not found")
     return index
-- 
2.43.0


From 70fe3ac8f0b87835ee2e69f3fcb3280fa2c41626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 17/77] fix: align_index_to returned uninitialized positions
 for unmatched values

---
 vectorbt/base/index_fns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1fc9525..1a01bfc 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -315,6 +315,8 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
     unique_indices = np.unique(stacked, axis=0, return_inverse=True)[1]
     unique1 = unique_indices[: len(index1)]
     unique2 = unique_indices[len(index1) :]
+    if not np.isin(unique2, unique1).all():
+        raise ValueError("Second index contains values not in first index")
     return pd.IndexSlice[_align_index_to_nb(unique1, unique2)]
 
 
-- 
2.43.0


From 820840f64950d081918da749d9c2c758b60d4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 18/77] fix: selecting one row of a DataFrame accessor raised
 IndexError

---
 vectorbt/base/accessors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/accessors.py b/vectorbt/base/accessors.py
index 1737390..8003b93 100644
--- a/vectorbt/base/accessors.py
+++ b/vectorbt/base/accessors.py
@@ -127,7 +127,12 @@ class BaseAccessor(Wrapping):
     def indexing_func(self: BaseAccessorT, pd_indexing_func: tp.PandasIndexingFunc, **kwargs) -> BaseAccessorT:
         """Perform indexing on `BaseAccessor`."""
         new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
-        new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs, :][:, col_idxs], group_by=False)
+        if np.ndim(idx_idxs) == 0:
+            # one row turned into a Series
+            new_arr = self.to_2d_array()[idx_idxs, col_idxs]
+        else:
+            new_arr = self.to_2d_array()[idx_idxs, :][:, col_idxs]
+        new_obj = new_wrapper.wrap(new_arr, group_by=False)
         if checks.is_series(new_obj):
             return self.replace(cls_=self.sr_accessor_cls, obj=new_obj, wrapper=new_wrapper)
         return self.replace(cls_=self.df_accessor_cls, obj=new_obj, wrapper=new_wrapper)
-- 
2.43.0


From 59cda2a10ec61725c42a18305d2cb486f979e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 19/77] fix: select a column of a portfolio, records or mapped
 array by integer position

---
 vectorbt/base/array_wrapper.py   | 10 ++++++++--
 vectorbt/portfolio/base.py       |  2 ++
 vectorbt/records/base.py         |  2 ++
 vectorbt/records/mapped_array.py |  2 ++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 4d73dcd..d729f9f 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -800,6 +800,12 @@ class Wrapping(Configured, PandasIndexer, AttrResolver):
         `column` can be a label-based position as well as an integer position (if label fails)."""
         _self = self.regroup(group_by, **kwargs)
 
+        from vectorbt._settings import settings
+
+        column_only_select = getattr(_self, "_column_only_indexing", False) or _self.wrapper.column_only_select
+        if column_only_select is None:
+            column_only_select = settings["array_wrapper"]["column_only_select"]
+
         def _check_out_dim(out: WrappingT) -> WrappingT:
             if _self.wrapper.grouper.is_grouped():
                 if out.wrapper.grouped_ndim != 1:
@@ -815,7 +821,7 @@ class Wrapping(Configured, PandasIndexer, AttrResolver):
                     raise TypeError("This object already contains one group of data")
                 if column not in _self.wrapper.get_columns():
                     if isinstance(column, int):
-                        if _self.wrapper.column_only_select:
+                        if column_only_select:
                             return _check_out_dim(_self.iloc[column])
                         return _check_out_dim(_self.iloc[:, column])
                     raise KeyError(f"Group '{column}' not found")
@@ -824,7 +830,7 @@ class Wrapping(Configured, PandasIndexer, AttrResolver):
                     raise TypeError("This object already contains one column of data")
                 if column not in _self.wrapper.columns:
                     if isinstance(column, int):
-                        if _self.wrapper.column_only_select:
+                        if column_only_select:
                             return _check_out_dim(_self.iloc[column])
                         return _check_out_dim(_self.iloc[:, column])
                     raise KeyError(f"Column '{column}' not found")
diff --git a/vectorbt/portfolio/base.py b/vectorbt/portfolio/base.py
index 0f5fb81..fd49280 100644
--- a/vectorbt/portfolio/base.py
+++ b/vectorbt/portfolio/base.py
@@ -1526,6 +1526,8 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
     !!! note
         This class is meant to be immutable. To change any attribute, use `Portfolio.replace`."""
 
+    _column_only_indexing: tp.ClassVar[bool] = True
+
     def __init__(
         self,
         wrapper: ArrayWrapper,
diff --git a/vectorbt/records/base.py b/vectorbt/records/base.py
index 728beaa..be7940c 100644
--- a/vectorbt/records/base.py
+++ b/vectorbt/records/base.py
@@ -464,6 +464,8 @@ class Records(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, RecordsWithFields,
             Useful if any subclass wants to extend the config.
     """
 
+    _column_only_indexing: tp.ClassVar[bool] = True
+
     _field_config: tp.ClassVar[Config] = Config(
         dict(
             dtype=None,
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..ecf736f 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -428,6 +428,8 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             Useful if any subclass wants to extend the config.
     """
 
+    _column_only_indexing: tp.ClassVar[bool] = True
+
     def __init__(
         self,
         wrapper: ArrayWrapper,
-- 
2.43.0


From 0390c8f3c3708bbab94946f03669276662b7ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 20/77] fix: cached methods returned the result of an equal
 argument of another type (group_by=0 and False)

---
 vectorbt/utils/decorators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38bf532..a5a966e 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -392,10 +392,11 @@ class cached_methodT(custom_methodT):
     def __call__(self, *args, **kwargs) -> tp.Any: ...
 
 
-def cached_method(*args, maxsize: int = 128, typed: bool = False, **flags) -> tp.Union[tp.Callable, cached_methodT]:
+def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.Union[tp.Callable, cached_methodT]:
     """Extends `custom_method` with caching.
 
-    Internally uses `functools.lru_cache`.
+    Internally uses `functools.lru_cache`. Arguments of different types are cached separately by default
+    since equal arguments may have a different meaning (such as 0 and False in `group_by`).
 
     Disables caching if `should_cache` yields False or a non-hashable object
     as argument has been passed.
-- 
2.43.0


From d7feca13f0cd97bc1416c40dce87708fe2cc96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 21/77] fix: describing mapped values failed without positions
 or with several values per position

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index ecf736f..da666e0 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -981,7 +981,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From c9094b5ab73da6c5dd150b899eb81c7efaf45fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 22/77] fix: top_n and bottom_n ignored group_by when selecting
 elements

---
 vectorbt/records/mapped_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index da666e0..f5071f5 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -657,12 +657,12 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
     @cached_method
     def top_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
         """Filter top N elements from each column/group."""
-        return self.apply_mask(self.top_n_mask(n), **kwargs)
+        return self.apply_mask(self.top_n_mask(n, group_by=kwargs.get("group_by", None)), **kwargs)
 
     @cached_method
     def bottom_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
         """Filter bottom N elements from each column/group."""
-        return self.apply_mask(self.bottom_n_mask(n), **kwargs)
+        return self.apply_mask(self.bottom_n_mask(n, group_by=kwargs.get("group_by", None)), **kwargs)
 
     @cached_method
     def is_expandable(
-- 
2.43.0


From a5a1ee081b4d3e20a1b69718306b4dd3449867ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 23/77] fix: reducing mapped values to arrays used undefined
 memory when there are no values

---
 vectorbt/records/nb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vectorbt/records/nb.py b/vectorbt/records/nb.py
index 4bab696..e154ee8 100644
--- a/vectorbt/records/nb.py
+++ b/vectorbt/records/nb.py
@@ -580,6 +580,8 @@ def reduce_mapped_to_array_nb(
     `reduce_func_nb` same as for `reduce_mapped_nb` but should return an array."""
     col_idxs, col_lens = col_map
     col_start_idxs = np.cumsum(col_lens) - col_lens
+    col0 = -1
+    idxs0 = col_idxs[:0]
     for col in range(col_lens.shape[0]):
         col_len = col_lens[col]
         if col_len > 0:
@@ -587,8 +589,10 @@ def reduce_mapped_to_array_nb(
             col0, idxs0 = col, col_idxs[col_start_idx : col_start_idx + col_len]
             break
 
-    col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
+    col_out = reduce_func_nb(max(col0, 0), mapped_arr[idxs0], *args)
     out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
+    if col0 == -1:
+        return out
     out[:, col0] = col_out
 
     for col in range(col0 + 1, col_lens.shape[0]):
@@ -618,6 +622,8 @@ def reduce_mapped_to_idx_array_nb(
         Must return integers or raise an exception."""
     col_idxs, col_lens = col_map
     col_start_idxs = np.cumsum(col_lens) - col_lens
+    col0 = -1
+    idxs0 = col_idxs[:0]
     for col in range(col_lens.shape[0]):
         col_len = col_lens[col]
         if col_len > 0:
@@ -625,8 +631,10 @@ def reduce_mapped_to_idx_array_nb(
             col0, idxs0 = col, col_idxs[col_start_idx : col_start_idx + col_len]
             break
 
-    col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
+    col_out = reduce_func_nb(max(col0, 0), mapped_arr[idxs0], *args)
     out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
+    if col0 == -1:
+        return out
     out[:, col0] = idx_arr[idxs0][col_out]
 
     for col in range(col0 + 1, col_lens.shape[0]):
-- 
2.43.0


From 4903bd74815bb2d36323256c23ce9320ba4521ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 24/77] fix: wrapping with fillna changed the array passed by
 the caller

---
 vectorbt/base/array_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index d729f9f..ec03793 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -581,7 +581,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             arr = np.asarray(arr)
             checks.assert_ndim(arr, (1, 2))
             if fillna is not None:
-                arr[pd.isnull(arr)] = fillna
+                arr = np.where(pd.isnull(arr), fillna, arr).astype(arr.dtype, copy=False)
             arr = reshape_fns.soft_to_ndim(arr, self.ndim)
             checks.assert_shape_equal(arr, index, axis=(0, 0))
             if arr.ndim == 2:
@@ -653,7 +653,7 @@ class ArrayWrapper(Configured, PandasIndexer):
 
             arr = np.asarray(arr)
             if fillna is not None:
-                arr[pd.isnull(arr)] = fillna
+                arr = np.where(pd.isnull(arr), fillna, arr).astype(arr.dtype, copy=False)
             if arr.ndim == 0:
                 # Scalar per Series/DataFrame
                 return pd.Series(arr, dtype=dtype)[0]
-- 
2.43.0


From e4483204c4b47951c89f6b1ab8eba4c62ca15968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 25/77] fix: describing mapped values ignored group_by=False

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index f5071f5..51cd9ee 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -981,7 +981,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd(ignore_index=True).describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True, group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From 7144d43680585e5c47b20e651c0b90e30f878c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 26/77] fix: run_combs added hidden parameters to the shared
 hide_params list

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 34b4d94..38f5b9f 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3027,8 +3027,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_settings, kwargs.get("param_settings", {}), [param_names]  # get, not pop
                 )
 
-                if _hide_params is None:
-                    _hide_params = []
+                # The list is extended below, so do not touch the one passed by the user
+                _hide_params = list(_hide_params) if _hide_params is not None else []
                 if _short_names is None:
                     _short_names = [f"{short_name}_{str(i + 1)}" for i in range(_r)]
 
-- 
2.43.0


From ccf30cb85cdbc7be7f77c2deb43806ebbedfefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 27/77] fix: in-place outputs failed when only some were passed
 or when running per column without parameters

---
 vectorbt/indicators/factory.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 38f5b9f..83c5a69 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1629,7 +1629,7 @@ def run_pipeline(
         input_list = list(map(np.asarray, bc_input_list))
     if len(in_output_idxs) > 0:
         # Separate inputs and in-place outputs
-        in_output_list = input_list[-len(in_output_idxs) :]
+        bc_in_output_list = input_list[-len(in_output_idxs) :]
         input_list = input_list[: -len(in_output_idxs)]
 
     # Reshape input shape
@@ -1726,14 +1726,20 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
+    n_in_output_chunks = n_unique_param_values
+    if per_column and input_shape_2d is not None:
+        # One per column
+        n_in_output_chunks = orig_input_shape_2d[1]
     j = 0
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[j], requirements="W")
-            if not per_column:
+            in_output_wide = np.require(bc_in_output_list[j], requirements="W")
+            if per_column:
+                in_output_wide = reshape_fns.to_2d(in_output_wide).copy()
+            else:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
             j += 1
@@ -1741,12 +1747,12 @@ def run_pipeline(
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
             dtype = _in_output_settings.get("dtype", None)
-            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_unique_param_values)
+            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_in_output_chunks)
             in_output_wide = np.empty(in_output_shape, dtype=dtype)
         in_output_list[i] = in_output_wide
         in_outputs = []
         # Split each in-place output into chunks, each of input shape, and append to a list
-        for i in range(n_unique_param_values):
+        for i in range(n_in_output_chunks):
             in_output = in_output_wide[:, i * input_shape_2d[1] : (i + 1) * input_shape_2d[1]]
             if len(input_shape_ready) == 1:
                 in_output = in_output[:, 0]
-- 
2.43.0


From de94fb0af844547b1a863ed1f35321c7f9b7c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 28/77] fix: in-place outputs written by the function were lost
 with keep_pd=True

---
 vectorbt/indicators/factory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 83c5a69..be4f48e 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1879,6 +1879,14 @@ def run_pipeline(
                 **func_kwargs,
             )
 
+        if keep_pd:
+            # Writing to a pandas object may not reach the array it was created from
+            for in_output_wide, in_outputs in zip(in_output_list, in_output_list_ready):
+                for i, in_output in enumerate(in_outputs):
+                    in_output_wide[:, i * input_shape_2d[1] : (i + 1) * input_shape_2d[1]] = reshape_fns.to_2d_array(
+                        in_output
+                    )
+
         # Return cache
         if kwargs.get("return_cache", False):
             if use_run_unique and not silence_warnings:
-- 
2.43.0


From 8e913dd5cf71350f6e7dd883c686696c600a9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 29/77] fix: run_combs with per_column=True took outputs from
 other columns

---
 vectorbt/indicators/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index be4f48e..0e50cfb 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3073,7 +3073,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_list = [param_list]
 
                 # Speed up by pre-calculating raw outputs
-                if _run_unique:
+                if _run_unique and not merge_dicts(pipeline_kwargs, kwargs).get("per_column", False):
+                    # With per_column=True, raw outputs belong to the column they were computed for
                     raw_results = cls._run(
                         *input_list,
                         *param_list,
-- 
2.43.0


From beb7ce7ce3144a20aadc496d7e83c69c73a2f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 30/77] fix: combining runs over array-like parameters failed
 when raw outputs were reused

---
 vectorbt/indicators/factory.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 0e50cfb..3c642d9 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1767,10 +1767,20 @@ def run_pipeline(
         # Numba can't stand untyped lists
         in_output_list_ready = [to_typed_list(in_outputs) for in_outputs in in_output_list_ready]
 
+    def _get_param_idx(_param_map, param_tuple):
+        try:
+            return _param_map.index(param_tuple)
+        except ValueError:
+            # Parameters that are arrays cannot be compared by tuple comparison
+            for i, other_tuple in enumerate(_param_map):
+                if all(x is y or np.array_equal(x, y) for x, y in zip(other_tuple, param_tuple)):
+                    return i
+            raise
+
     def _use_raw(_raw):
         # Use raw results of previous run to build outputs
         _output_list, _param_map, _n_input_cols, _other_list = _raw
-        idxs = np.array([_param_map.index(param_tuple) for param_tuple in zip(*param_list)])
+        idxs = np.array([_get_param_idx(_param_map, param_tuple) for param_tuple in zip(*param_list)])
         _output_list = [
             np.hstack([o[:, idx * _n_input_cols : (idx + 1) * _n_input_cols] for idx in idxs]) for o in _output_list
         ]
-- 
2.43.0


From b5e44e06c8a4bf8762f42f4d0ff6bf5bf034806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 31/77] fix: run_combs with hide_default=False passed wrapped
 defaults to the function

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 3c642d9..8742e4f 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3063,8 +3063,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 # Hide params
                 for i, pname in enumerate(param_names):
-                    if _hide_default and isinstance(param_list[i], Default):
-                        if pname not in _hide_params:
+                    if isinstance(param_list[i], Default):
+                        if _hide_default and pname not in _hide_params:
                             _hide_params.append(pname)
                         param_list[i] = param_list[i].value
                 checks.assert_len_equal(param_list, param_names)
-- 
2.43.0


From 8fcb127132434f5bb111b47fb261994ec022decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 32/77] fix: selecting by a parameter whose column level is
 hidden raised KeyError

---
 vectorbt/base/indexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index ca08cfc..535b24f 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -221,7 +221,8 @@ class ParamLoc(LocBase):
                 if self.level_name is not None:
                     if checks.is_frame(new_obj):
                         if isinstance(new_obj.columns, pd.MultiIndex):
-                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
+                            # The level may be hidden or already dropped
+                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name, strict=False)
             return new_obj
 
         return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)
-- 
2.43.0


From afc3a8f4cafa7167f3721cfbaeed23bca2070e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 33/77] fix: selecting by a boolean parameter was taken for a
 mask

---
 vectorbt/base/indexing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index 535b24f..c7323e1 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -10,7 +10,7 @@ one can manipulate complex classes with dozens of pandas objects using a single
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_object_dtype, is_string_dtype
+from pandas.api.types import is_bool_dtype, is_object_dtype, is_string_dtype
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -166,8 +166,8 @@ class ParamLoc(LocBase):
     def __init__(self, mapper: tp.Series, indexing_func: tp.Callable, level_name: tp.Level = None, **kwargs) -> None:
         checks.assert_instance_of(mapper, pd.Series)
 
-        if is_object_dtype(mapper.dtype):
-            # If params are objects, we must cast them to string first
+        if is_object_dtype(mapper.dtype) or is_bool_dtype(mapper.dtype):
+            # If params are objects (or booleans, which pandas would take for a mask), we must cast them to string first
             # The original mapper isn't touched
             # Normalize numpy scalars to Python scalars for consistent string representation
             mapper = mapper.apply(_normalize_numpy_scalars).astype(str)
-- 
2.43.0


From 5a2dc8de14925ca390c15d9e8e9942dc34147932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 34/77] fix: random entries and exits with n=0 raised when
 waits are not one

---
 vectorbt/signals/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index a73da58..33d548e 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -447,6 +447,8 @@ def generate_rand_enex_nb(
     else:
         for col in range(shape[1]):
             _n = flex_select_auto_nb(ns, 0, col, True)
+            if _n == 0:
+                continue
             if _n == 1:
                 entry_idx = np.random.randint(0, shape[0] - exit_wait)
                 entries[entry_idx, col] = True
-- 
2.43.0


From 8eb48d554e66a2eb9404ba2faa3434b0d727bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 35/77] fix: random signals of a series refused a probability
 per row

---
 vectorbt/_engine.py           | 13 +++++++++++--
 vectorbt/signals/accessors.py |  8 ++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/vectorbt/_engine.py b/vectorbt/_engine.py
index 5867706..736c02d 100644
--- a/vectorbt/_engine.py
+++ b/vectorbt/_engine.py
@@ -307,9 +307,18 @@ def rolling_compatible_with_rust(a: tp.Any, window: int, minp: tp.Optional[int])
     )
 
 
-def broadcast_to_shape(a: tp.ArrayLike, shape: tp.Shape, dtype: tp.Optional[tp.DTypeLike] = None) -> tp.Array:
-    """Cast array to dtype if provided and broadcast to shape."""
+def broadcast_to_shape(
+    a: tp.ArrayLike,
+    shape: tp.Shape,
+    dtype: tp.Optional[tp.DTypeLike] = None,
+    flex_2d: bool = True,
+) -> tp.Array:
+    """Cast array to dtype if provided and broadcast to shape.
+
+    If `flex_2d` is False, a one-dimensional array is per row rather than per column."""
     arr = np.asarray(a, dtype=dtype)
+    if arr.ndim == 1 and not flex_2d:
+        arr = arr[:, None]
     return np.broadcast_to(arr, shape)
 
 
diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index d7b869d..f4fa955 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -546,7 +546,7 @@ class SignalsAccessor(GenericAccessor):
             n = np.broadcast_to(n, shape[1])
             result = dispatch.generate_rand(shape, n, seed=seed, engine=engine)
         elif prob is not None:
-            prob = broadcast_to_shape(prob, shape, np.float64)
+            prob = broadcast_to_shape(prob, shape, np.float64, flex_2d)
             result = dispatch.generate_rand_by_prob(shape, prob, pick_first, flex_2d, seed=seed, engine=engine)
         else:
             raise ValueError("At least n or prob should be set")
@@ -646,8 +646,8 @@ class SignalsAccessor(GenericAccessor):
                 engine=engine,
             )
         elif entry_prob is not None and exit_prob is not None:
-            entry_prob = broadcast_to_shape(entry_prob, shape, np.float64)
-            exit_prob = broadcast_to_shape(exit_prob, shape, np.float64)
+            entry_prob = broadcast_to_shape(entry_prob, shape, np.float64, flex_2d)
+            exit_prob = broadcast_to_shape(exit_prob, shape, np.float64, flex_2d)
             entries, exits = dispatch.generate_rand_enex_by_prob(
                 shape,
                 entry_prob,
@@ -713,7 +713,7 @@ class SignalsAccessor(GenericAccessor):
         if prob is not None:
             obj, prob = reshape_fns.broadcast(self.obj, prob, keep_raw=[False, True])
             entries_2d = reshape_fns.to_2d_array(obj)
-            prob = broadcast_to_shape(prob, entries_2d.shape, np.float64)
+            prob = broadcast_to_shape(prob, entries_2d.shape, np.float64, obj.ndim == 2)
             exits = dispatch.generate_rand_ex_by_prob(
                 entries_2d,
                 prob,
-- 
2.43.0


From c50357d0be2bbd2ae0c39841a41c7509dbaa73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 36/77] fix: no extrema were labelled when the first price is
 missing

---
 vectorbt/labels/nb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vectorbt/labels/nb.py b/vectorbt/labels/nb.py
index 1f39225..e6ceff7 100644
--- a/vectorbt/labels/nb.py
+++ b/vectorbt/labels/nb.py
@@ -127,7 +127,10 @@ def local_extrema_apply_nb(
             if _neg_th == 0:
                 raise ValueError("Negative threshold cannot be 0")
 
-            if direction == 1:
+            if np.isnan(close[prev_i, col]):
+                # No price yet
+                prev_i = i
+            elif direction == 1:
                 # Find next high while updating current lows
                 if close[i, col] < close[prev_i, col]:
                     prev_i = i
-- 
2.43.0


From 226abdd616f22922fc27f7673045ba125d7796d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 37/77] fix: updating replaced known values by NaN where only
 other symbols got new data

---
 vectorbt/data/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..a2f0ae4 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -646,6 +646,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             new_data[k] = new_obj
 
         # Align index and columns
+        downloaded_index = {k: v.index for k, v in new_data.items()}
         new_data = self.align_index(new_data, missing=self.missing_index)
         new_data = self.align_columns(new_data, missing=self.missing_columns)
 
@@ -656,8 +657,13 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                     v = v[self.data[k].name]
             else:
                 v = v[self.data[k].columns]
+            index = self.data[k].index.append(v.index)
+            index = index[~index.duplicated(keep="last")]
+            # Rows added by the alignment do not overwrite known data points
+            v = v[v.index.isin(downloaded_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
             v = v[~v.index.duplicated(keep="last")]
+            v = v.reindex(index=index)
             if isinstance(v.index, pd.DatetimeIndex):
                 v.index.freq = v.index.inferred_freq
             new_data[k] = v
-- 
2.43.0


From 415b402e5dd100e13389fbeaef951b441e6f8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 38/77] fix: aligning series of different names lost all but
 the first one

---
 vectorbt/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index a2f0ae4..42763a9 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -449,7 +449,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             if isinstance(v, pd.Series):
                 v = v.to_frame()
             v = v.reindex(columns=columns)
-            if not multiple_columns:
+            if not multiple_columns and len(columns) == 1:
                 v = v[columns[0]]
                 if name_is_none:
                     v = v.rename(None)
-- 
2.43.0


From 8922da812aac48f32a7539e13d622ba7e89e62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 39/77] fix: concatenating data failed for tuple symbols and
 for a single symbol holding text

---
 vectorbt/data/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 42763a9..a83e1b2 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -682,17 +682,18 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
         else:
             columns = first_data.columns
         if len(self.symbols) > 1:
-            new_data = {c: pd.DataFrame(index=index, columns=pd.Index(self.symbols, name=level_name)) for c in columns}
+            symbols = pd.Index(self.symbols, name=level_name, tupleize_cols=False)
+            new_data = {c: pd.DataFrame(index=index, columns=symbols) for c in columns}
         else:
-            new_data = {c: pd.Series(index=index, name=self.symbols[0]) for c in columns}
+            new_data = {c: pd.Series(index=index, name=self.symbols[0], dtype=object) for c in columns}
         for c in columns:
-            for s in self.symbols:
+            for i, s in enumerate(self.symbols):
                 if isinstance(self.data[s], pd.Series):
                     col_data = self.data[s]
                 else:
                     col_data = self.data[s][c]
                 if len(self.symbols) > 1:
-                    new_data[c].loc[:, s] = col_data
+                    new_data[c].iloc[:, i] = col_data
                 else:
                     new_data[c].loc[:] = col_data
         for c in columns:
-- 
2.43.0


From 4f34d3f4afa1f8dc354d614536b033e0c757ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 40/77] fix: merging on the overlapping keys only added new
 keys to child dicts and to an empty first dict

---
 vectorbt/utils/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..8eaedf5 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
@@ -190,7 +190,7 @@ def merge_dicts(
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From d7a3ab7c91f6d89c01096490f8dcc5dbdc271562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 41/77] fix: dictionaries with keys other than strings could be
 dumped but not loaded

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 8eaedf5..755a276 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -266,7 +266,7 @@ class PickleableDict(Pickleable, dict):
         for k, v in config.items():
             if isinstance(v, DumpTuple):
                 config[k] = v.cls.loads(v.dumps, **kwargs)
-        return cls(**config)
+        return cls(config)
 
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance."""
-- 
2.43.0


From 57d962ee75208575988bd974ee59ff8815c5c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 42/77] fix: containers were equal to longer ones, and
 comparing configs by inequality or with other types failed

---
 vectorbt/utils/checks.py | 3 +++
 vectorbt/utils/config.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..8f155d1 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -297,6 +297,7 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
     def _check_array(assert_method):
         __kwargs = _select_kwargs(assert_method, kwargs)
         safe_assert(arg1.dtype == arg2.dtype)
+        safe_assert(arg1.shape == arg2.shape)
         if arg1.dtype.fields is not None:
             for field in arg1.dtype.names:
                 assert_method(arg1[field], arg2[field], **__kwargs)
@@ -323,9 +324,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
                     safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(arg1.keys() == arg2.keys())
                 for k in arg1.keys():
                     safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
             else:
diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 755a276..c57535e 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -687,8 +687,13 @@ class Config(PickleableDict, Documented):
         self.update(loaded, nested=False, force=True)
 
     def __eq__(self, other: tp.Any) -> bool:
+        if not isinstance(other, dict):
+            return False
         return checks.is_deep_equal(dict(self), dict(other))
 
+    def __ne__(self, other: tp.Any) -> bool:
+        return not self == other
+
     def to_doc(self, with_params: bool = False, **kwargs) -> str:
         """Convert to a doc."""
         doc = self.__class__.__name__ + "(" + to_doc(dict(self), **kwargs) + ")"
-- 
2.43.0


From a28d316c135fb49428ae6c8723991baea1b3fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 43/77] fix: setdefault and |= changed frozen and read-only
 configs

---
 vectorbt/utils/config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index c57535e..fc8f61d 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -532,6 +532,17 @@ class Config(PickleableDict, Documented):
         self._clear_attrs(prior_keys)
         return result
 
+    def setdefault(self, k: str, v: tp.Any = None) -> tp.Any:
+        """Return the value of the key, and set it first if the key is missing."""
+        if k not in self:
+            self[k] = v
+        return self[k]
+
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        """Update the config."""
+        self.update(other)
+        return self
+
     def popitem(self, force: bool = False) -> tp.Tuple[tp.Any, tp.Any]:
         """Remove and return some pair."""
         if not force and self.readonly_:
-- 
2.43.0


From bb8d7b53f56577d649b13becb228e1ccbd3a732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 44/77] fix: configs inside of other objects could be pickled
 but not unpickled

---
 vectorbt/utils/config.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index fc8f61d..3243166 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -277,6 +277,11 @@ class PickleableDict(Pickleable, dict):
 ConfigT = tp.TypeVar("ConfigT", bound="Config")
 
 
+def _new_config(cls: tp.Type[ConfigT]) -> ConfigT:
+    """Create an empty config to be filled when unpickling."""
+    return cls.__new__(cls)
+
+
 class Config(PickleableDict, Documented):
     """Extends dict with config features such as nested updates, frozen keys/values, and pickling.
 
@@ -653,6 +658,14 @@ class Config(PickleableDict, Documented):
         reset_dct = copy_dict(dict(self), **reset_dct_copy_kwargs)
         self.__dict__["_reset_dct_"] = reset_dct
 
+    def __reduce__(self) -> tp.Tuple:
+        return _new_config, (self.__class__,), (dict(self), self.__dict__)
+
+    def __setstate__(self, state: tp.Tuple[dict, dict]) -> None:
+        dct, attrs = state
+        self.__dict__.update(attrs)
+        dict.update(self, dct)
+
     def dumps(self, **kwargs) -> bytes:
         """Pickle to bytes."""
         return dill.dumps(
-- 
2.43.0


From 9b5b4f3b7fdf27f6ca2b0a2ec36cf2e1af59eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 45/77] fix: copying a config put the copy of the saved state
 into the original

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 3243166..7fdbd3e 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -616,7 +616,7 @@ class Config(PickleableDict, Documented):
 
         reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, copy_kwargs, reset_dct_copy_kwargs)
         reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
-        self.__dict__["_reset_dct_"] = reset_dct
+        self_copy.__dict__["_reset_dct_"] = reset_dct
 
         copy_kwargs = merge_dicts(self.copy_kwargs_, copy_kwargs)
         dct = copy_dict(dict(self), **copy_kwargs)
-- 
2.43.0


From b66b37b4ec93cabd19ffca11f9f56eb0e9235362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 46/77] fix: replacing without copying failed for objects with
 writeable attributes

---
 vectorbt/utils/config.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 7fdbd3e..19104de 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -799,14 +799,13 @@ class Configured(Pickleable, Documented):
         new_instance = cls_(**new_config)
         for attr in self.writeable_attrs:
             attr_obj = getattr(self, attr)
-            if isinstance(attr_obj, Config):
-                attr_obj = attr_obj.copy(copy_mode=copy_mode_, nested=nested_)
-            else:
-                if copy_mode_ is not None:
-                    if copy_mode_ == "hybrid":
-                        attr_obj = copy(attr_obj)
-                    elif copy_mode_ == "deep":
-                        attr_obj = deepcopy(attr_obj)
+            if copy_mode_ is not None:
+                if isinstance(attr_obj, Config):
+                    attr_obj = attr_obj.copy(copy_mode=copy_mode_, nested=nested_)
+                elif copy_mode_ == "hybrid":
+                    attr_obj = copy(attr_obj)
+                elif copy_mode_ == "deep":
+                    attr_obj = deepcopy(attr_obj)
             setattr(new_instance, attr, attr_obj)
         return new_instance
 
-- 
2.43.0


From a3ae3235a2441e4fec8c1c4da1b353bf7c0a1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 47/77] fix: accessing properties failed when a caching
 condition was given a method

---
 vectorbt/utils/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index a5a966e..b9ac7f2 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -204,8 +204,8 @@ def should_cache(func_name: str, instance: object, func: tp.Optional[tp.Callable
             if isinstance(cond.func, cached_property):  # cached_property
                 if func != cond.func.func:
                     return start_rank
-            elif callable(cond.func) and hasattr(func, "func") and hasattr(cond.func, "func"):  # cached_method
-                if func.func != cond.func.func:
+            elif callable(cond.func) and hasattr(cond.func, "func"):  # cached_method
+                if not hasattr(func, "func") or func.func != cond.func.func:
                     return start_rank
             elif isinstance(cond.func, str):
                 if func_name != cond.func:
-- 
2.43.0


From cac03258f23414a8805945e33e32406a0c099703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 48/77] fix: overriding a cached method or property and calling
 the parent's mixed up their caches

---
 vectorbt/utils/decorators.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index b9ac7f2..2e679a3 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -318,7 +318,7 @@ class cached_property(custom_property):
     @property
     def attrname(self) -> str:
         """Get name of cached attribute."""
-        return "__cached_" + self.name
+        return "__cached_%s_%s.%s" % (self.name, self.func.__module__, self.func.__qualname__)
 
     def __set_name__(self, owner: tp.Type, name: str) -> None:
         self.name = name
@@ -410,10 +410,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
                 # Ignores non-hashable instances
                 return func(instance, *args, **kwargs)
 
-            _func = None
-            if hasattr(instance, wrapper.name):
-                _func = getattr(instance, wrapper.name)
-            if not should_cache(wrapper.name, instance, func=_func, **wrapper.flags):
+            if not should_cache(wrapper.name, instance, func=wrapper, **wrapper.flags):
                 return func(instance, *args, **kwargs)
             cache = instance.__dict__
             cached_func = cache.get(wrapper.attrname, _NOT_FOUND)
@@ -450,7 +447,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
         wrapper.maxsize = maxsize
         wrapper.typed = typed
         wrapper.name = func.__name__
-        wrapper.attrname = "__cached_" + func.__name__
+        wrapper.attrname = "__cached_%s_%s.%s" % (func.__name__, func.__module__, func.__qualname__)
         wrapper.lock = RLock()
         wrapper.clear_cache = clear_cache
 
-- 
2.43.0


From dbefd70e56edac4fe8862d860c721948fffa617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 49/77] fix: overwritten metrics and subplots were neither
 saved nor copied along with the config

---
 vectorbt/utils/config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 19104de..8cfeab4 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -775,11 +775,12 @@ class Configured(Pickleable, Documented):
     @property
     def writeable_attrs(self) -> tp.Set[str]:
         """Set of writeable attributes that will be saved/copied along with the config."""
-        return {
-            base_cls.writeable_attrs.__get__(self)
-            for base_cls in self.__class__.__bases__
-            if isinstance(base_cls, Configured)
-        }
+        writeable_attrs = set()
+        for base_cls in self.__class__.__mro__:
+            base_attrs = base_cls.__dict__.get("writeable_attrs", None)
+            if base_cls is not Configured and base_attrs is not None:
+                writeable_attrs |= base_attrs.__get__(self)
+        return writeable_attrs
 
     def replace(
         self: ConfiguredT,
@@ -797,6 +798,9 @@ class Configured(Pickleable, Documented):
             cls_ = self.__class__
         new_config = self.config.merge_with(new_config, copy_mode=copy_mode_, nested=nested_)
         new_instance = cls_(**new_config)
+        if cls_ is not self.__class__:
+            # attributes of another class may have another meaning
+            return new_instance
         for attr in self.writeable_attrs:
             attr_obj = getattr(self, attr)
             if copy_mode_ is not None:
-- 
2.43.0


From b2b1fbe12a66cfbd14162a21a45d7d49846a1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 50/77] fix: cache resolved attributes under their
 pre-processed name

AttrResolver.resolve_attr stored the result under the original name, so a
metric with its own use_asset_returns reused the returns of another metric.
---
 vectorbt/utils/attr_.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 320c375..dbc6958 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -177,19 +177,19 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and not custom_k and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         else:
-            if use_caching and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 5589c91cf8d64049f490702b946da3cf19820c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 51/77] fix: do not share attributes resolved with explicit
 arguments between metrics

---
 vectorbt/utils/attr_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index dbc6958..f07090d 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -170,7 +170,8 @@ class AttrResolver:
             attr_func = getattr(self, _attr)
             attr_func_kwargs = dict()
             attr_func_arg_names = get_func_arg_names(attr_func)
-            custom_k = False
+            # A result that depends on arguments of this very call must not be shared
+            custom_k = len(args) > 0 or len(kwargs) > 0
             for k, v in final_kwargs.items():
                 if k in attr_func_arg_names or k in kwargs:
                     if k in custom_arg_names:
-- 
2.43.0


From f4f09b63dc6fad3b069acd9d12e95b088231c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 52/77] fix: accept aggregation functions without a name in
 stats

---
 vectorbt/generic/stats_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/stats_builder.py b/vectorbt/generic/stats_builder.py
index 0b0d463..f921ce9 100644
--- a/vectorbt/generic/stats_builder.py
+++ b/vectorbt/generic/stats_builder.py
@@ -588,7 +588,7 @@ class StatsBuilderMixin(metaclass=MetaStatsBuilderMixin):
                     f"Pass column to select a single column/group.",
                     stacklevel=2,
                 )
-            return pd.Series(stats_dct, name="agg_func_" + agg_func.__name__)
+            return pd.Series(stats_dct, name="agg_func_" + getattr(agg_func, "__name__", type(agg_func).__name__))
         new_index = reself.wrapper.grouper.get_columns(group_by=group_by)
         stats_df = pd.DataFrame(stats_dct, index=new_index)
         return stats_df
-- 
2.43.0


From c16a10f6bf12c39b660e061f4bba9ddfee89f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 53/77] fix: return a scalar from norm_avg_index for a single
 group

---
 vectorbt/signals/accessors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index f4fa955..f84aa60 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1619,6 +1619,11 @@ class SignalsAccessor(GenericAccessor):
             norm_avg_index = norm_avg_index.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
             group_total = col_total.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
             norm_avg_index /= group_total
+            norm_avg_index = self.wrapper.wrap_reduced(
+                reshape_fns.to_1d_array(norm_avg_index),
+                group_by=group_by,
+                **wrap_kwargs,
+            )
         return norm_avg_index
 
     def index_mapped(self, group_by: tp.GroupByLike = None, **kwargs) -> MappedArray:
-- 
2.43.0


From 829d1fade9e2073e176648657d302626580476d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 54/77] fix: pass keyword arguments of partition_rate on as
 such

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index f84aa60..be61f4a 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1667,8 +1667,8 @@ class SignalsAccessor(GenericAccessor):
         **kwargs,
     ) -> tp.MaybeSeries:
         """`SignalsAccessor.total_partitions` divided by `SignalsAccessor.total` in each column/group."""
-        total_partitions = reshape_fns.to_1d_array(self.total_partitions(group_by=group_by, *kwargs))
-        total = reshape_fns.to_1d_array(self.total(group_by=group_by, *kwargs))
+        total_partitions = reshape_fns.to_1d_array(self.total_partitions(group_by=group_by, **kwargs))
+        total = reshape_fns.to_1d_array(self.total(group_by=group_by))
         wrap_kwargs = merge_dicts(dict(name_or_index="partition_rate"), wrap_kwargs)
         return self.wrapper.wrap_reduced(total_partitions / total, group_by=group_by, **wrap_kwargs)
 
-- 
2.43.0


From cc4ef9e862c4f1237cc90f7dd8f8ceb9b72d7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 55/77] fix: keep frequency and grouping of signals in
 between_ranges with another array

---
 vectorbt/signals/accessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index be61f4a..9c9acf4 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1237,7 +1237,10 @@ class SignalsAccessor(GenericAccessor):
                 from_other=from_other,
                 engine=engine,
             )
-            wrapper = ArrayWrapper.from_obj(obj)
+            wrapper = ArrayWrapper.from_obj(obj, freq=self.wrapper.freq)
+            if wrapper.ndim == self.wrapper.ndim and wrapper.columns.equals(self.wrapper.columns):
+                # Columns are the same, hence keep the grouping
+                wrapper = self.wrapper.replace(index=wrapper.index)
             to_attach = other if attach_other else obj
         kwargs.setdefault("engine", engine)
         return Ranges(wrapper, range_records, ts=to_attach if attach_ts else None, **kwargs).regroup(group_by)
-- 
2.43.0


From ffd14ab28819b8d16ef95290246be7710e29f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 56/77] fix: respect the grouping of signals in overlap metrics

---
 vectorbt/signals/accessors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 9c9acf4..a669381 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1747,14 +1747,18 @@ class SignalsAccessor(GenericAccessor):
             ),
             total_overlapping=dict(
                 title="Total Overlapping",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.resolve_group_by(group_by)
+                ),
                 check_silent_has_other=True,
                 tags=["signals", "other"],
             ),
             overlapping_rate=dict(
                 title="Overlapping Rate [%]",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by)
-                / (self | other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.resolve_group_by(group_by)
+                )
+                / (self | other).vbt.signals.total(group_by=self.wrapper.grouper.resolve_group_by(group_by)),
                 post_calc_func=lambda self, out, settings: out * 100,
                 check_silent_has_other=True,
                 tags=["signals", "other"],
-- 
2.43.0


From 350cd8ba8e947750a21f464e394734991b813202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 57/77] fix: drop a level requested both by name and by
 position only once

---
 vectorbt/base/index_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1a01bfc..c03af20 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -165,9 +165,9 @@ def drop_levels(index: tp.Index, levels: tp.MaybeLevelSequence, strict: bool = T
         levels = (levels,)
     for level in levels:
         if level in index.names:
-            levels_to_drop.add(level)
+            levels_to_drop.add(index._get_level_number(level))
         elif isinstance(level, int) and 0 <= level < index.nlevels or level == -1:
-            levels_to_drop.add(level)
+            levels_to_drop.add(level % index.nlevels)
     if len(levels_to_drop) < index.nlevels:
         # Drop only if there will be some indexes left
         return index.droplevel(list(levels_to_drop))
-- 
2.43.0


From 18817b3b43468f5c3a9c39697bc01cfdc53fc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 58/77] fix: ignore unused level values when looking for
 redundant levels

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index c03af20..edaddc8 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -207,7 +207,7 @@ def drop_redundant_levels(index: tp.Index) -> tp.Index:
 
     levels_to_drop = []
     for i in range(index.nlevels):
-        if len(index) > 1 and len(index.levels[i]) == 1 and index.levels[i].name is None:
+        if len(index) > 1 and index.get_level_values(i).nunique(dropna=False) == 1 and index.levels[i].name is None:
             levels_to_drop.append(i)
         elif checks.is_default_index(index.get_level_values(i)):
             levels_to_drop.append(i)
-- 
2.43.0


From 0cc9c6c24104a14ce0956033dd0d2ce3bd1ef5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 59/77] fix: ignore unused level values when aligning indexes

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index edaddc8..1318c4c 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -280,7 +280,7 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
             name1 = index1.names[i]
             name2 = index2.names[j]
             if name1 == name2:
-                if set(index2.levels[j]).issubset(set(index1.levels[i])):
+                if set(index2.get_level_values(j)).issubset(set(index1.get_level_values(i))):
                     if i in mapper:
                         raise ValueError(f"There are multiple candidate levels with name {name1} in second index")
                     mapper[i] = j
-- 
2.43.0


From b0fb4154c7546814b9aa29cb100e65da868a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 60/77] fix: make template variables visible in nested scopes
 of evaluated expressions

---
 vectorbt/utils/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/template.py b/vectorbt/utils/template.py
index 685d3b6..76993f9 100644
--- a/vectorbt/utils/template.py
+++ b/vectorbt/utils/template.py
@@ -105,7 +105,7 @@ class RepEval(SafeToStr):
 
         Merges `mapping` and `RepEval.mapping`."""
         mapping = merge_dicts(self.mapping, mapping)
-        return eval(self.expression, {}, mapping)
+        return eval(self.expression, dict(mapping))
 
     def __str__(self) -> str:
         return (
-- 
2.43.0


From 1ec93df5f162ea0e01e3c9d022667764b085325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 61/77] fix: keep a missing value as it is when mapping with
 ignore_missing

---
 vectorbt/utils/mapping.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vectorbt/utils/mapping.py b/vectorbt/utils/mapping.py
index 8983b64..87b7a5c 100644
--- a/vectorbt/utils/mapping.py
+++ b/vectorbt/utils/mapping.py
@@ -120,14 +120,13 @@ def apply_mapping(
     def convert_value(x: tp.Any) -> tp.Any:
         if pd.isnull(x):
             return na_sentinel
-        if isinstance(x, str):
-            x = key_func(x)
+        key = key_func(x) if isinstance(x, str) else x
         if ignore_missing:
             try:
-                return new_mapping[x]
+                return new_mapping[key]
             except KeyError:
                 return x
-        return new_mapping[x]
+        return new_mapping[key]
 
     if isinstance(obj, (tuple, list, set, frozenset)):
         result = [
-- 
2.43.0


From 09711158d62b978a26cf24964287ddd092f5133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 62/77] fix: keep the time of day of np.datetime64 when
 converting to a datetime

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 3df2f67..5fee393 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -140,7 +140,7 @@ def to_tzaware_datetime(
     elif isinstance(dt_like, pd.Timestamp):
         dt = dt_like.to_pydatetime()
     elif isinstance(dt_like, np.datetime64):
-        dt = datetime.combine(dt_like.astype(datetime), time())
+        dt = pd.Timestamp(dt_like).to_pydatetime()
     else:
         dt = dt_like
 
-- 
2.43.0


From e2d4465e13c950d48b9120e53da40cf6a72bead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 63/77] fix: preserve the instant of timezone-aware datetimes
 with daylight saving time

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 5fee393..6745b5c 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -150,7 +150,7 @@ def to_tzaware_datetime(
     if not is_tz_aware(dt):
         dt = dt.replace(tzinfo=to_timezone(naive_tz))
     else:
-        dt = dt.replace(tzinfo=to_timezone(dt.tzinfo))
+        dt = dt.astimezone(to_timezone(dt.tzinfo))
     if tz is not None:
         dt = dt.astimezone(to_timezone(tz))
     return dt
-- 
2.43.0


From 4522710fc56dfee6379e21f94bc06db126acd493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 64/77] fix: detect the unit of integer timestamps before
 September 2001

---
 vectorbt/utils/datetime_.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 6745b5c..4c6d2cd 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -131,10 +131,9 @@ def to_tzaware_datetime(
     if isinstance(dt_like, float):
         dt = datetime.fromtimestamp(dt_like, timezone.utc)
     elif isinstance(dt_like, int):
-        if len(str(dt_like)) > 10:
-            dt = datetime.fromtimestamp(dt_like / 10 ** (len(str(dt_like)) - 10), timezone.utc)
-        else:
-            dt = datetime.fromtimestamp(dt_like, timezone.utc)
+        # Seconds have up to 11 digits, milliseconds up to 14, microseconds up to 17, and so on
+        power = 3 * max(0, -((11 - len(str(abs(dt_like)))) // 3))
+        dt = datetime.fromtimestamp(dt_like / 10**power, timezone.utc)
     elif isinstance(dt_like, str):
         dt = dateparser.parse(dt_like, **kwargs)
     elif isinstance(dt_like, pd.Timestamp):
-- 
2.43.0


From bfc5ebb631830171ae3d53db85d867fcbda09869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 65/77] fix: schedule jobs with an interval given as timedelta

---
 vectorbt/utils/schedule_.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index d79f60a..b1ec1d8 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -189,6 +189,14 @@ class ScheduleManager:
         for i, arg in enumerate(args):
             if "interval" in expected_args and _is_arg_interval(arg):
                 interval = arg
+                if isinstance(interval, timedelta):
+                    # Timedelta already includes the unit
+                    interval = interval.total_seconds()
+                    if interval.is_integer():
+                        interval = int(interval)
+                    unit = "seconds"
+                    expected_args = []
+                    continue
                 expected_args = expected_args[expected_args.index("interval") + 1 :]
                 continue
             if "unit" in expected_args and _is_arg_unit(arg):
-- 
2.43.0


From c464ee2e9cfc4a21f940f65606d4986bff8831e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 66/77] fix: accept timezone-aware times in hourly and minutely
 jobs

---
 vectorbt/utils/schedule_.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index b1ec1d8..1cd5a16 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -226,9 +226,8 @@ class ScheduleManager:
             job = getattr(job, start_day)
         if at is not None:
             if isinstance(at, dt_time):
-                if job.unit == "days" or job.start_day:
-                    if at.tzinfo is not None:
-                        at = tzaware_to_naive_time(at, None)
+                if at.tzinfo is not None:
+                    at = tzaware_to_naive_time(at, None)
                 at = at.isoformat()
                 if job.unit == "hours":
                     at = ":".join(at.split(":")[1:])
-- 
2.43.0


From c1dcd116a0d2073eb4329ec1b86fbf0eef706048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 67/77] fix: accept lists and sets of job tags

---
 vectorbt/utils/schedule_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 1cd5a16..3e5754c 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -237,6 +237,8 @@ class ScheduleManager:
         if to is not None:
             job = job.to(to)
         if tags is not None:
+            if isinstance(tags, (list, set)):
+                tags = tuple(tags)
             if not isinstance(tags, tuple):
                 tags = (tags,)
             job = job.tag(*tags)
-- 
2.43.0


From d8c3ad306d7240725757525ab296466fbc9c5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 68/77] fix: respect the deadline of jobs that run
 asynchronously

---
 vectorbt/utils/schedule_.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 3e5754c..bc7af75 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -27,12 +27,20 @@ class CancelledError(asyncio.CancelledError):
 class AsyncJob(Job):
     async def async_run(self) -> tp.Any:
         """Async `Job.run`."""
+        if self._is_overdue(datetime.now()):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
+
         logger.info("Running job %s", self)
         ret = self.job_func()
         if inspect.isawaitable(ret):
             ret = await ret
         self.last_run = datetime.now()
         self._schedule_next_run()
+
+        if self._is_overdue(self.next_run):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         return ret
 
 
-- 
2.43.0


From de45205854092d805448532707588fee3e89b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 69/77] fix: convert weekly offsets to a duration

---
 vectorbt/utils/datetime_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 4c6d2cd..9b8ec86 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -20,6 +20,8 @@ def freq_to_timedelta(arg: tp.FrequencyLike) -> pd.Timedelta:
     if isinstance(arg, str) and not arg[0].isdigit():
         # Otherwise "ValueError: unit abbreviation w/o a number"
         return pd.Timedelta(1, unit=arg)
+    if isinstance(arg, pd.offsets.Week):
+        return pd.Timedelta(arg.n, unit="W")
     if isinstance(arg, pd.DateOffset):
         return pd.Timedelta(arg.nanos)
     return pd.Timedelta(arg)
-- 
2.43.0


From fbbe434d812fff972921ff58bf6dffd223d6b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 70/77] fix: do not take an inferred month-start frequency for
 milliseconds

---
 vectorbt/base/array_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index ec03793..eb607df 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -89,6 +89,7 @@ import warnings
 
 import numpy as np
 import pandas as pd
+from pandas.tseries.frequencies import to_offset
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -448,7 +449,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             if self.index.freq is not None:
                 return freq_to_timedelta(self.index.freq)
             if self.index.inferred_freq is not None:
-                return freq_to_timedelta(self.index.inferred_freq)
+                return freq_to_timedelta(to_offset(self.index.inferred_freq))
         return freq
 
     def to_timedelta(
-- 
2.43.0


From 90ae237e7ca08df572c688a66d3ec67a772421f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 71/77] fix: do not lose a millisecond when converting a
 datetime to milliseconds

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 9b8ec86..504359d 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -159,7 +159,7 @@ def to_tzaware_datetime(
 
 def datetime_to_ms(dt: datetime) -> int:
     """Convert a datetime to milliseconds."""
-    return int(dt.timestamp() * 1000.0)
+    return int(dt.replace(microsecond=0).timestamp()) * 1000 + dt.microsecond // 1000
 
 
 def interval_to_ms(interval: str) -> tp.Optional[int]:
-- 
2.43.0


From bc7c889270973468fd7e02241395b0d8a84b9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 72/77] fix: keep the tick labels of every axis in Volume, not
 only of the last one

---
 vectorbt/generic/plotting.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vectorbt/generic/plotting.py b/vectorbt/generic/plotting.py
index 9f343f8..01007a9 100644
--- a/vectorbt/generic/plotting.py
+++ b/vectorbt/generic/plotting.py
@@ -875,20 +875,21 @@ class Volume(Configured, TraceUpdater):
 
         # Non-numeric data types are not supported by go.Volume, so use ticktext
         # Note: Currently plotly displays the entire tick array, in future versions it will be more sensible
-        more_layout = dict()
+        scene_layout = dict()
         if not np.issubdtype(x_labels.dtype, np.number):
             x_ticktext = x_labels
             x_labels = np.arange(x_len)
-            more_layout[scene_name] = dict(xaxis=dict(ticktext=x_ticktext, tickvals=x_labels, tickmode="array"))
+            scene_layout["xaxis"] = dict(ticktext=x_ticktext, tickvals=x_labels, tickmode="array")
         if not np.issubdtype(y_labels.dtype, np.number):
             y_ticktext = y_labels
             y_labels = np.arange(y_len)
-            more_layout[scene_name] = dict(yaxis=dict(ticktext=y_ticktext, tickvals=y_labels, tickmode="array"))
+            scene_layout["yaxis"] = dict(ticktext=y_ticktext, tickvals=y_labels, tickmode="array")
         if not np.issubdtype(z_labels.dtype, np.number):
             z_ticktext = z_labels
             z_labels = np.arange(z_len)
-            more_layout[scene_name] = dict(zaxis=dict(ticktext=z_ticktext, tickvals=z_labels, tickmode="array"))
-        fig.update_layout(**more_layout)
+            scene_layout["zaxis"] = dict(ticktext=z_ticktext, tickvals=z_labels, tickmode="array")
+        if len(scene_layout) > 0:
+            fig.update_layout(**{scene_name: scene_layout})
         fig.update_layout(**layout_kwargs)
 
         # Arrays must have the same length as the flattened data array
-- 
2.43.0


From 5441b61c7413eec8ddf155edc50f6ca58b4687c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 73/77] fix: let plot_against compare an integer series with a
 float one

---
 vectorbt/generic/accessors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 23da0db..a158338 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2180,8 +2180,7 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
         pos_mask = self.obj > other
         if pos_mask.any():
             # Fill positive area
-            pos_obj = self.obj.copy()
-            pos_obj[~pos_mask] = other[~pos_mask]
+            pos_obj = self.obj.where(pos_mask, other)
             other.vbt.plot(
                 trace_kwargs=merge_dicts(
                     dict(
@@ -2216,8 +2215,7 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
         neg_mask = self.obj < other
         if neg_mask.any():
             # Fill negative area
-            neg_obj = self.obj.copy()
-            neg_obj[~neg_mask] = other[~neg_mask]
+            neg_obj = self.obj.where(neg_mask, other)
             other.vbt.plot(
                 trace_kwargs=merge_dicts(
                     dict(
-- 
2.43.0


From 618880bc7bba6abf1a047abf74413029d5ae0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 74/77] fix: respect return_fig of histplot and boxplot with
 grouped columns

---
 vectorbt/generic/accessors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index a158338..54c1aa0 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2016,7 +2016,9 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             ![](/assets/images/df_histplot.svg)
         """
         if self.wrapper.grouper.is_grouped(group_by=group_by):
-            return self.flatten_grouped(group_by=group_by).vbt.histplot(trace_names=trace_names, **kwargs)
+            return self.flatten_grouped(group_by=group_by).vbt.histplot(
+                trace_names=trace_names, return_fig=return_fig, **kwargs
+            )
 
         if trace_names is None:
             if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
@@ -2043,7 +2045,9 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             ![](/assets/images/df_boxplot.svg)
         """
         if self.wrapper.grouper.is_grouped(group_by=group_by):
-            return self.flatten_grouped(group_by=group_by).vbt.boxplot(trace_names=trace_names, **kwargs)
+            return self.flatten_grouped(group_by=group_by).vbt.boxplot(
+                trace_names=trace_names, return_fig=return_fig, **kwargs
+            )
 
         if trace_names is None:
             if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
-- 
2.43.0


From 78b509a89bcb6b291a1eca2dac950f427e983feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 75/77] fix: label each slider step of a heatmap with its own
 levels

---
 vectorbt/generic/accessors.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 54c1aa0..b68b8eb 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -2452,10 +2452,6 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
                 symmetric=symmetric,
                 sort=sort,
             )
-            if x_labels is None:
-                x_labels = df.columns
-            if y_labels is None:
-                y_labels = df.index
             _kwargs = merge_dicts(
                 dict(
                     trace_kwargs=dict(name=str(name) if name is not None else None, visible=False),
@@ -2465,8 +2461,8 @@ class GenericSRAccessor(GenericAccessor, BaseSRAccessor):
             default_size = fig is None and "height" not in _kwargs
             fig = plotting.Heatmap(
                 data=reshape_fns.to_2d_array(df),
-                x_labels=x_labels,
-                y_labels=y_labels,
+                x_labels=x_labels if x_labels is not None else df.columns,
+                y_labels=y_labels if y_labels is not None else df.index,
                 fig=fig,
                 **_kwargs,
             ).fig
-- 
2.43.0


From 7beb7660199519f0ec525bcd0e659cecdf09ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 76/77] fix: label each exit of OHLCSTX.plot with its own stop
 type

---
 vectorbt/signals/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/signals/generators.py b/vectorbt/signals/generators.py
index 07461db..d91e830 100644
--- a/vectorbt/signals/generators.py
+++ b/vectorbt/signals/generators.py
@@ -579,7 +579,7 @@ def _bind_ohlcstx_plot(base_cls: type, entries_attr: str) -> tp.Callable:  # pra
             self,
             entry_y=self.open,
             exit_y=self.stop_price,
-            exit_types=self.stop_type_readable,
+            exit_types=self.stop_type_readable[self.exits],
             entry_trace_kwargs=entry_trace_kwargs,
             exit_trace_kwargs=exit_trace_kwargs,
             add_trace_kwargs=add_trace_kwargs,
-- 
2.43.0


From 9fa7bcf2f757c7f8c5d9b663ae6c4951ab7e555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 77/77] fix: updates that skip known rows or fill gaps left the
 index unsorted

---
 vectorbt/data/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index a83e1b2..9a206ab 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -658,7 +658,10 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             else:
                 v = v[self.data[k].columns]
             index = self.data[k].index.append(v.index)
-            index = index[~index.duplicated(keep="last")]
+            index = index[~index.duplicated(keep="first")]
+            if self.data[k].index.is_monotonic_increasing:
+                # Updates may leave out known data points or fill gaps
+                index = index.sort_values()
             # Rows added by the alignment do not overwrite known data points
             v = v[v.index.isin(downloaded_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
-- 
2.43.0

