From 8308493fe5f64c1cde6e1430b5a25cc7d443e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 001/140] fix: reject nan and inf time values in TSCDataFrame

---
 datafold/pcfold/timeseries/collection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a410e66..84b0a68 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -890,6 +890,12 @@ class TSCDataFrame(pd.DataFrame):
                 time_index.dtype.kind in "uifM"
             ), f"Numpy dtype.kind={time_index.dtype.kind} not allowed in TSCDataFrame."
 
+        # neither nan (NaT) nor inf are valid time values
+        if time_index.isna().any() or (
+            time_index.dtype.kind == "f" and np.isinf(time_index).any()
+        ):
+            raise AttributeError("Time values have to be finite.")
+
         # u - unsigned integer | i - signed integer | f - floating point
         # do not perform this check for:
         # M - datetime (bc. the second condition raises an error)
-- 
2.43.0


From 2ac4fe51979493dbdb777a8f551e6a22949e8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 002/140] fix: TSCDataFrame.insert_ts must not change the index
 of the inserted frame

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 84b0a68..9246af4 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1471,13 +1471,14 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # Add the ID to the first level of the MultiIndex
+        df = df.copy(deep=True)  # to not change the index of the user's object
         df.index = pd.MultiIndex.from_arrays(
             [np.ones(df.shape[0], dtype=int) * ts_id, _index],
             names=[self.tsc_id_idx_name, self.tsc_time_idx_name],
         )
 
         # 'self' has to appear first to keep TSCDataFrame type.
-        return pd.concat([self, df.copy(deep=True)], sort=False, axis=0)
+        return pd.concat([self, df], sort=False, axis=0)
 
     def time_interval(
         self, ts_id: Optional[int] = None
-- 
2.43.0


From 42a429d128fc77b0e1530a0c027793ae1bbe39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 003/140] fix: reject non-numeric data in column assignment of
 TSCDataFrame

---
 datafold/pcfold/timeseries/collection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 9246af4..135fa2c 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1282,6 +1282,15 @@ class TSCDataFrame(pd.DataFrame):
 
         return _slice
 
+    def __setitem__(self, key, value):
+        if self.is_validate and not _is_numeric_dtype(
+            value
+            if isinstance(value, (Number, np.ndarray, pd.Series, pd.DataFrame))
+            else np.asarray(value)
+        ):
+            raise AttributeError("Data in TSCDataFrame must be numeric.")
+        return super().__setitem__(key, value)
+
     def __getitem__(self, key):
         _slice = super().__getitem__(key=key)
 
-- 
2.43.0


From 2fe66120f073d83637480a33d6b700955d398f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 004/140] fix: restore all attributes of a pickled TSCDataFrame

---
 datafold/pcfold/timeseries/collection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 135fa2c..0c1c3ca 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -365,6 +365,14 @@ class TSCDataFrame(pd.DataFrame):
         # in _LocTSCIndexer and _iLocTSCIndexer
         return super().__setattr__(key, value)
 
+    def __getstate__(self):
+        # include attributes in the (pickle) state that are unknown to pandas
+        return {
+            **super().__getstate__(),
+            "is_validate": self.is_validate,
+            "fixed_delta": self.fixed_delta,
+        }
+
     def __repr__(self, with_fixed_delta=True):
         if not with_fixed_delta and self.fixed_delta is not None:
             _time = TSCDataFrame.tsc_time_idx_name
-- 
2.43.0


From 2b1b9f4a2c45185c30aa2cf952f2a989647efbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 005/140] fix: assign correct series IDs in
 TSCDataFrame.feature_to_array

---
 datafold/pcfold/timeseries/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 0c1c3ca..ea83f51 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1607,7 +1607,9 @@ class TSCDataFrame(pd.DataFrame):
         )
 
         if as_frame:
-            array = pd.DataFrame(array, index=self.ids, columns=self.time_values())
+            # the time series are not necessarily in the order of sorted IDs
+            ids = self.index.get_level_values(self.tsc_id_idx_name).unique()
+            array = pd.DataFrame(array, index=ids, columns=self.time_values())
 
         return array
 
-- 
2.43.0


From d86043f795f78a6782fd87ec25da17e0474ba7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 006/140] fix: delta_time per time series for collections with
 unsorted IDs

---
 datafold/pcfold/timeseries/collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index ea83f51..eaf8d56 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1064,6 +1064,8 @@ class TSCDataFrame(pd.DataFrame):
                 dt_result_series[:] = np.nan
             else:
                 n_timeseries = self.n_timeseries
+                # order of time series in the rows (not necessarily sorted)
+                row_ids = id_indexer.unique()
 
                 # faster evaluation if all time series have the same number of time steps
                 idx_mask = np.ones(n_timesteps, dtype=bool)
@@ -1076,7 +1078,7 @@ class TSCDataFrame(pd.DataFrame):
 
                 if diff_times.shape[1] == 1:
                     # special case when n_timesteps==2
-                    dt_result_series[:] = diff_times.flatten()
+                    dt_result_series.loc[row_ids] = diff_times.flatten()
                 else:
                     # need to check if all values are the same
                     if diff_times.dtype == float:
@@ -1100,7 +1102,7 @@ class TSCDataFrame(pd.DataFrame):
                             else:
                                 result[~equal_dt] = np.timedelta64("NaT")
 
-                    dt_result_series[:] = result.flatten()
+                    dt_result_series.loc[row_ids] = result.flatten()
         else:
             for timeseries_id in self.ids:
                 # TODO: this can be potentially faster by using views on the diff_times
-- 
2.43.0


From 7ad9173d86afa55ce77f0c441893986062a3675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 007/140] fix: delta_time must not report a common value if
 datetime series differ

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index eaf8d56..dd63547 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1121,7 +1121,7 @@ class TSCDataFrame(pd.DataFrame):
 
         if not np.isnan(dt_result_series).all():
             if is_timedelta64_dtype(dt_result_series) or dt_result_series.dtype == int:
-                is_global_unique = len(np.unique(dt_result_series))
+                is_global_unique = len(np.unique(dt_result_series)) == 1
             else:
                 is_global_unique = np.allclose(
                     np.min(dt_result_series), dt_result_series, atol=atol, rtol=rtol
-- 
2.43.0


From 66e977115b24e038a57314783db77c0cffb2db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 008/140] fix: sort IDs and time values also after a selection

---
 datafold/pcfold/timeseries/collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index dd63547..aa93216 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -993,7 +993,8 @@ class TSCDataFrame(pd.DataFrame):
         """The time series IDs in the collection."""
         # update index by removing potentially unused levels
         self.index = self.index.remove_unused_levels()
-        return self.index.levels[0]
+        # the levels are not necessarily sorted (e.g. after a selection)
+        return self.index.levels[0].sort_values()
 
     @property
     def delta_time(self) -> Union[pd.Series, int, float, np.timedelta64]:
@@ -1530,7 +1531,8 @@ class TSCDataFrame(pd.DataFrame):
             all time values that appear in the collection
         """
         self.index = self.index.remove_unused_levels()
-        ret_idx = np.asarray(self.index.levels[1])
+        # the levels are not necessarily sorted (e.g. after a selection)
+        ret_idx = np.sort(np.asarray(self.index.levels[1]))
         if self.fixed_delta is not None and with_fixed_delta:
             ret_idx = ret_idx.astype(float)
             ret_idx *= self.fixed_delta
-- 
2.43.0


From 9675e0098db0162978bedb0546f4f88df6eafa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 009/140] fix: delta_time for collections with degenerate time
 series and float times

---
 datafold/pcfold/timeseries/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index aa93216..34bc7d3 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1110,7 +1110,9 @@ class TSCDataFrame(pd.DataFrame):
                 #  instead of using get indexer for
                 _id_dt = diff_times[id_indexer.get_indexer_for([timeseries_id])[:-1]]
 
-                if is_timedelta64_dtype(_id_dt) or _id_dt.dtype == int:
+                if len(_id_dt) == 0:
+                    _is_unique_dt = False  # degenerate time series
+                elif is_timedelta64_dtype(_id_dt) or _id_dt.dtype == int:
                     _is_unique_dt = len(np.unique(np.asarray(_id_dt))) == 1
                 else:
                     _is_unique_dt = np.allclose(
-- 
2.43.0


From 637f8e39bdc77320a399db9d8d6c98715b582186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 010/140] fix: delta_time compares all time differences of a
 series

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 34bc7d3..9a8edc0 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1084,7 +1084,7 @@ class TSCDataFrame(pd.DataFrame):
                     # need to check if all values are the same
                     if diff_times.dtype == float:
                         result = np.min(diff_times, axis=1)[:, np.newaxis]
-                        abs_diff = np.abs(diff_times[:, 1:] - result)
+                        abs_diff = np.abs(diff_times - result)
 
                         within_atol = np.all(abs_diff < atol, axis=1)
                         within_rtol = np.all(
-- 
2.43.0


From 8d1a17a029f02d9ca081d49300c725713093e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 011/140] fix: const_sampled_time_values must include the end
 of the interval for float times

---
 datafold/pcfold/timeseries/collection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 9a8edc0..ac8b325 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1568,9 +1568,11 @@ class TSCDataFrame(pd.DataFrame):
             # maintain actual time dtype
             _dtype = self.index.get_level_values(self.tsc_time_idx_name).dtype
 
-            return np.arange(
-                start, np.nextafter(end, np.finfo(float).max), self.delta_time
-            ).astype(_dtype)
+            # The end of the interval must not be lost due to rounding errors
+            delta_time = self.delta_time
+            n_steps = int(np.floor(np.round((end - start) / delta_time, 8)))
+
+            return (start + np.arange(n_steps + 1) * delta_time).astype(_dtype)
 
     def feature_to_array(
         self, feature: Optional[str] = None, as_frame: bool = False
-- 
2.43.0


From 9be780da448f0166e1102837f7ddddd27965e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 012/140] fix: number of time values in from_array_control for
 float time deltas

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index ac8b325..1825624 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1846,7 +1846,7 @@ class InitialCondition:
             raise ValueError("")
 
         if time_values is None:
-            time_values = np.arange(0, U.shape[0] * dt, dt)
+            time_values = np.arange(U.shape[0]) * dt
 
         U = TSCDataFrame.from_array(
             U, time_values=time_values, feature_names=control_names, ts_id=ts_id
-- 
2.43.0


From 476e4613264677517126a1a5daac42c33b2b3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 013/140] fix: select_time_values for collections with unsorted
 IDs

---
 datafold/pcfold/timeseries/collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 1825624..a8710d5 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1638,8 +1638,9 @@ class TSCDataFrame(pd.DataFrame):
             a ``pandas.DataFrame``.
 
         """
-        idx = pd.IndexSlice
-        return self.loc[idx[:, time_values], :]
+        # keep the order of rows (pandas may reorder them if the IDs are not sorted)
+        row_locs = np.sort(self.index.get_locs((slice(None), time_values)))
+        return self.iloc[row_locs, :]
 
     def initial_states(self, n_samples: int = 1) -> "TSCDataFrame":
         """Get initial state of each time series in the collection.
-- 
2.43.0


From dc2aafe5d60f662a64e381e6b87a6ccfcae14132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 014/140] fix: shift_matrices for time series of different
 length with unsorted IDs

---
 datafold/pcfold/timeseries/accessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 62c3862..01d2e53 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1242,7 +1242,11 @@ class TSCAccessor:
                     right = np.delete(values.copy(), idx_del_right, axis=0)
 
             elif isinstance(ts_counts, pd.Series):
-                idx = np.append(0, ts_counts.to_numpy()).cumsum()
+                # the counts must be in the order in which the time series are stored
+                row_ids = self._tsc_df.index.get_level_values(
+                    TSCDataFrame.tsc_id_idx_name
+                ).unique()
+                idx = np.append(0, ts_counts.loc[row_ids].to_numpy()).cumsum()
                 idx_del_left = (idx - 1)[1:]
                 idx_del_right = idx[:-1]
 
-- 
2.43.0


From e2ef58bae7bfa330a1e25924faf729dfe67e1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 015/140] fix: expand_time_values for collections with unsorted
 IDs

---
 datafold/pcfold/timeseries/accessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 01d2e53..ff166ca 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -550,7 +550,10 @@ class TSCAccessor:
             )
             return TSCDataFrame.from_tensor(
                 tensor=tensor_data,
-                time_series_ids=self._tsc_df.ids,
+                # order in which the time series are stored in the tensor
+                time_series_ids=self._tsc_df.index.get_level_values(
+                    TSCDataFrame.tsc_id_idx_name
+                ).unique(),
                 time_values=new_time_values,
                 feature_names=self._tsc_df.columns,
             )
-- 
2.43.0


From 70a35e899cc53e73dcf5a364bdb184f34fbb80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 016/140] fix: shift_time_per_time_series for collections with
 unsorted IDs

---
 datafold/pcfold/timeseries/accessor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index ff166ca..be88204 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -591,17 +591,13 @@ class TSCAccessor:
            shifted time series collection and shift_values (optional)
 
         """
-        n_timesteps = self._tsc_df.n_timesteps
-        if isinstance(n_timesteps, pd.Series):
-            n_timesteps = n_timesteps.to_numpy()
-
         if shift_values is None:
             shift_values = self._tsc_df.initial_states(1).index
             shift_values = pd.Series(
                 # -1 to normalize it to zero
                 -1 * shift_values.get_level_values(TSCDataFrame.tsc_time_idx_name),
                 shift_values.get_level_values(TSCDataFrame.tsc_id_idx_name),
-            )
+            ).sort_index()
         else:
             if not isinstance(shift_values, pd.Series):
                 raise TypeError(
@@ -614,7 +610,10 @@ class TSCAccessor:
                 )
 
         if np.any(shift_values != 0):
-            time_shift_expanded = np.repeat(shift_values.to_numpy(), n_timesteps)
+            # match shift values and samples by ID (the IDs are not necessarily sorted)
+            time_shift_expanded = shift_values.loc[
+                self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+            ].to_numpy()
 
             normalized_time_values = (
                 self._tsc_df.index.get_level_values("time") + time_shift_expanded
-- 
2.43.0


From 425d4e022a609f58bc27025829441c4a21775525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 017/140] fix: ignore ensure_identical_values for time series
 without constant sampling

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index be88204..10e4f59 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -622,7 +622,7 @@ class TSCAccessor:
                 [self._tsc_df.index.get_level_values("ID"), normalized_time_values]
             )
 
-            if ensure_identical_values:
+            if ensure_identical_values and self._tsc_df.is_const_delta_time():
                 dt = self._tsc_df.delta_time
                 corrected_values = (
                     np.round(new_index.get_level_values("time") / dt) * dt
-- 
2.43.0


From f36b2385385248934a3f46c769567ae682206b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 018/140] fix: rounding errors in normalize_time

---
 datafold/pcfold/timeseries/accessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 10e4f59..28fb9a8 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -672,7 +672,8 @@ class TSCAccessor:
             min_time = min_time.astype(int)
             delta_time = delta_time.astype(int)
 
-        convert_times = np.array((convert_times - min_time) / delta_time, dtype=int)
+        convert_times = np.round(np.asarray((convert_times - min_time) / delta_time))
+        convert_times = convert_times.astype(int)
         convert_times = pd.Index(convert_times, name=TSCDataFrame.tsc_time_idx_name)
 
         new_tsc_index = pd.MultiIndex.from_arrays(
-- 
2.43.0


From 2868b74f3af9b1b6c4c9aed5c6209db647c2a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 019/140] fix: augment_control_input if the first time series
 has ID 1

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 28fb9a8..e5090a0 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1168,7 +1168,7 @@ class TSCAccessor:
 
         X_ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
         mask_all_except_first = np.logical_not(
-            np.diff(X_ids, prepend=True).astype(bool)
+            np.diff(X_ids, prepend=X_ids[0] - 1).astype(bool)
         )
         mask_all_except_last = np.append(
             np.logical_not((X_ids[:-1] - X_ids[1:]).astype(bool)), False
-- 
2.43.0


From e0b497bb5b8fbc5f7bae943004c670d310604c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 020/140] fix: ID and number of samples in
 fill_timeseries_with_last_state

---
 datafold/pcfold/timeseries/accessor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index e5090a0..1e7db6b 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1154,9 +1154,12 @@ class TSCAccessor:
         first_time = self._tsc_df.time_values()[-1] + dt
 
         attach_states = np.tile(last_state, (n_attach, 1))
-        attach_time = np.arange(first_time, first_time + n_attach * dt - 1e-15, dt)
+        attach_time = first_time + np.arange(n_attach) * dt
         tsc_attach = TSCDataFrame.from_array(
-            attach_states, time_values=attach_time, feature_names=self._tsc_df.columns
+            attach_states,
+            time_values=attach_time,
+            feature_names=self._tsc_df.columns,
+            ts_id=self._tsc_df.ids[0],
         )
         return pd.concat([self._tsc_df, tsc_attach], axis=0)
 
-- 
2.43.0


From feec4416de7824aa28cd7274dcabd0131970b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 021/140] fix: assign_ids_const_delta must not change the
 object to which the accessor refers

---
 datafold/pcfold/timeseries/accessor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 1e7db6b..473f005 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1114,10 +1114,11 @@ class TSCAccessor:
                     )
 
         if result_dfs:
-            self._tsc_df = pd.concat(result_dfs, axis=0)
-            self._tsc_df = self._tsc_df.tsc.assign_ids_sequential()
+            # do not overwrite self._tsc_df, the accessor is cached in the source object
+            result = pd.concat(result_dfs, axis=0)
+            result = result.tsc.assign_ids_sequential()
 
-            if np.isnan(np.asarray(self._tsc_df.delta_time)).any():
+            if np.isnan(np.asarray(result.delta_time)).any():
                 warnings.warn(
                     "The function 'assign_ids_const_delta' was unsuccessful "
                     "to remove all irregular time series. Please "
@@ -1125,7 +1126,7 @@ class TSCAccessor:
                     stacklevel=2,
                 )
 
-            return self._tsc_df
+            return result
         else:
             return None
 
-- 
2.43.0


From f9f7a9dfc9046fa5b3c9f546d4ec834ab43525cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 022/140] fix: assign_ids_const_delta for time values with
 floating point noise

---
 datafold/pcfold/timeseries/accessor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 473f005..64c9011 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1017,9 +1017,10 @@ class TSCAccessor:
                 return local_tsc_df
 
             # time difference
-            first_diff = np.diff(
-                local_tsc_df.index.get_level_values(TSCDataFrame.tsc_time_idx_name)
+            _time_values = local_tsc_df.index.get_level_values(
+                TSCDataFrame.tsc_time_idx_name
             )
+            first_diff = np.diff(_time_values)
 
             if local_tsc_df.is_datetime_index():
                 first_diff = first_diff.astype(int)
@@ -1030,6 +1031,11 @@ class TSCAccessor:
             second_diff = np.diff(first_diff)
             second_diff = np.append(second_diff, 0)
 
+            if _time_values.dtype.kind == "f":
+                # differences that are only due to rounding errors are not a change
+                noise = 16 * np.finfo(float).eps * np.max(np.abs(_time_values))
+                second_diff[np.abs(second_diff) <= noise] = 0
+
             # Indicator for first case:
             # There is a gap in the sampling, e.g.
             # 1,2,3,10,11,12
-- 
2.43.0


From 0809a661c2035a53474132d30d34adfb46e24444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 023/140] fix: check_required_time_delta raises TSCException
 for datetime values

---
 datafold/pcfold/timeseries/accessor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 64c9011..e81fac3 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -234,8 +234,14 @@ class TSCAccessor:
             delta_times = np.asarray(self._tsc_df.delta_time)
 
             if self._tsc_df.is_datetime_index():
-                if (delta_times != required_time_delta).any():
-                    raise AttributeError
+                required = np.asarray(required_time_delta)
+                if required.dtype == object:  # e.g. pd.Timedelta
+                    required = required.astype("timedelta64[ns]")
+
+                if required.ndim > 0 and required.shape != delta_times.shape:
+                    raise AssertionError
+                if np.any(delta_times != required):
+                    raise AssertionError
             else:
                 # this is a better variant than
                 # np.asarray(self._tsc_df.delta_time) == np.asarray(required_time_delta)
-- 
2.43.0


From 707b2edad0902786ec8589fe7fac7e0d235c07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 024/140] fix: check_equal_delta_time if only the second
 collection has different delta times

---
 datafold/pcfold/timeseries/accessor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index e81fac3..8a8883a 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -351,8 +351,10 @@ class TSCAccessor:
         Y_dt = Y.delta_time
 
         equal = True
-        if isinstance(X_dt, pd.Series) and not require_const:
-            if not isinstance(Y_dt, pd.Series):
+        if (
+            isinstance(X_dt, pd.Series) or isinstance(Y_dt, pd.Series)
+        ) and not require_const:
+            if not (isinstance(X_dt, pd.Series) and isinstance(Y_dt, pd.Series)):
                 equal = False
             else:
                 try:
-- 
2.43.0


From df4536d1bdaa7b638472c4f6ea0fb46611bc6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 025/140] fix: equal_const_delta_time for datetime values

---
 datafold/pcfold/timeseries/accessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 8a8883a..f16e9a4 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -396,6 +396,10 @@ class TSCAccessor:
         -------
         bool
         """
+        if isinstance(dt1, np.timedelta64) or isinstance(dt2, np.timedelta64):
+            # no floating point arithmetic for datetime
+            return bool(dt1 == dt2)
+
         return np.abs(dt1 - dt2) <= atol
 
     def iter_timevalue_window(
-- 
2.43.0


From 617937a77176eaef0daa488e63d316217b11c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 026/140] fix: user weights for multiple features in metrics l2
 and linf

---
 datafold/pcfold/timeseries/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index a21ae5c..b0ee885 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -130,7 +130,9 @@ class TSCMetric:
 
         norm = np.linalg.norm(diff, ord=order, axis=0)
 
-        if multioutput == "uniform_average":
+        if isinstance(multioutput, np.ndarray):
+            norm = np.average(norm, weights=multioutput)
+        elif multioutput == "uniform_average":
             norm = np.mean(norm)
 
         return norm
-- 
2.43.0


From 312a8221acf0db51f70c6826df991bfc17d8a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 027/140] fix: metric scaling 'l2_normalize' scales each
 feature with the factors of y_true

---
 datafold/pcfold/timeseries/metric.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index b0ee885..379b8ee 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -7,13 +7,26 @@ import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
 from sklearn import metrics
+from sklearn.base import BaseEstimator, TransformerMixin
 from sklearn.model_selection import KFold
-from sklearn.preprocessing import MinMaxScaler, Normalizer, StandardScaler
+from sklearn.preprocessing import MinMaxScaler, StandardScaler
 
 from datafold.pcfold import TSCDataFrame
 from datafold.utils.general import is_df_same_index, is_integer, series_if_applicable
 
 
+class _L2FeatureScaler(BaseEstimator, TransformerMixin):
+    """Divide each feature by its Euclidean norm during fit."""
+
+    def fit(self, X, y=None):
+        self.norm_ = np.linalg.norm(np.asarray(X), axis=0)
+        self.norm_[self.norm_ == 0] = 1.0
+        return self
+
+    def transform(self, X):
+        return np.asarray(X) / self.norm_
+
+
 class TSCMetric:
     """Compute metrics for time series collection data.
 
@@ -95,7 +108,7 @@ class TSCMetric:
         elif name == "standard":
             return StandardScaler()
         elif name == "l2_normalize":
-            return Normalizer(norm="l2")
+            return _L2FeatureScaler()
         else:
             raise ValueError(
                 f"scaling={name} is not known. Choose from {self._cls_valid_scaling}"
-- 
2.43.0


From 7332750f374a22f63e3a7973b2ffc296c3a41e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 028/140] fix: TSCWindowFoldTime for collections with unsorted
 IDs

---
 datafold/pcfold/timeseries/metric.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 379b8ee..a49b9db 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -876,13 +876,10 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
 
         This is used internally to select the samples for training and testing.
         """
-        max_id = np.max(X.ids)
-        time_series_ids = np.abs(
-            X.index.get_level_values(TSCDataFrame.tsc_id_idx_name) - max_id
-        )
-        idx = pd.MultiIndex.from_arrays(
-            [np.sort(time_series_ids), np.arange(X.shape[0])]
-        )
+        row_ids = np.asarray(X.index.get_level_values(TSCDataFrame.tsc_id_idx_name))
+        # number the time series in the (reversed) order in which they are stored
+        time_series_ids = np.cumsum(np.append(0, np.diff(row_ids[::-1]) != 0))
+        idx = pd.MultiIndex.from_arrays([time_series_ids, np.arange(X.shape[0])])
         indices_tsc = TSCDataFrame(index=idx)
         indices_tsc.loc[:, "indices"] = np.arange(X.shape[0])[::-1]
         return indices_tsc
-- 
2.43.0


From 649837069b077f88d8a91d763b2751a48311a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 029/140] fix: skip folds of TSCWindowFoldTime that leave no
 samples for training

---
 datafold/pcfold/timeseries/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index a49b9db..562f294 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -923,6 +923,10 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
             offset=self.test_window_length + self.test_offset,
             per_time_series=True,
         ):
+            if test_tsc.shape[0] == indices_tsc.shape[0]:
+                # the window contains all samples, so that there are none for training
+                continue
+
             train_tsc = indices_tsc.copy().drop(test_tsc.index, axis=0)
 
             # it is important to reassign the ids to keep the same sub-sampling and
@@ -942,7 +946,9 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
                         train_tsc.n_timesteps < self.minimum_n_timesteps
                     ].index
 
-                    if len(drop_ids) > 0:
+                    if len(drop_ids) == len(n_timesteps):
+                        train_tsc = pd.DataFrame()
+                    elif len(drop_ids) > 0:
                         train_tsc = train_tsc.drop(
                             drop_ids if len(drop_ids) > 0 else None, level=0
                         )
-- 
2.43.0


From ec527fc4c12da4d082302e762719bf2c495c0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 030/140] fix: reset the feature attributes when a transformer
 is fitted again

---
 datafold/dynfold/base.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index bcc869e..3293189 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -253,30 +253,30 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         X,
         n_features_out: Optional[int] = None,
     ) -> None:
-        if not hasattr(self, "n_features_in_"):
-            # sklearn function to set n_features_in_
-            self._check_n_features(X, reset=True)
-
-        if not hasattr(self, "feature_names_in_"):
-            if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
-                # workaround for datafold to support non-str feature names
-                # sklearn does only support feature names of type str
-                # Note that there is a guarantee for TSCDataFrame that the feature names have
-                # same type
-                self.feature_names_in_ = X.columns.to_numpy()
-            else:
-                # sklearn function to set feature_names_in_
-                self._check_feature_names(X, reset=True)
+        # NOTE: the attributes are always set anew, because an estimator can be fitted again to
+        # data with other features.
+
+        # sklearn function to set n_features_in_
+        self._check_n_features(X, reset=True)
+
+        if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
+            # workaround for datafold to support non-str feature names
+            # sklearn does only support feature names of type str
+            # Note that there is a guarantee for TSCDataFrame that the feature names have
+            # same type
+            self.feature_names_in_ = X.columns.to_numpy()
+        else:
+            # sklearn function to set feature_names_in_
+            self._check_feature_names(X, reset=True)
 
         # TODO: set features out implemented in alignment to SLEO013, but this proposal was
         #  rejected -- think of removing n_features_out (check how often and where it is used)
         # https://scikit-learn-enhancement-proposals.readthedocs.io/en/latest/slep013/proposal.html  # noqa
-        if not hasattr(self, "n_features_out_"):
-            if n_features_out is None:
-                feature_out = self.get_feature_names_out()
-                self.n_features_out_: int = len(feature_out)
-            else:
-                self.n_features_out_ = n_features_out
+        if n_features_out is None:
+            feature_out = self.get_feature_names_out()
+            self.n_features_out_: int = len(feature_out)
+        else:
+            self.n_features_out_ = n_features_out
 
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
-- 
2.43.0


From 1fc380335ef8d4beb0f9c05e100111b07e58d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 031/140] fix: inverse_transform of transformers fitted to
 arrays

---
 datafold/dynfold/transform.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index de37184..a2e2a7b 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -174,7 +174,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
 
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
-            X=X, values=values, feature_names=self.feature_names_in_
+            X=X,
+            values=values,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -511,7 +513,9 @@ class TSCPrincipalComponent(PCA, TSCTransformerMixin):
         data_orig_space = super().inverse_transform(X)
 
         return self._same_type_X(
-            X, values=data_orig_space, feature_names=self.feature_names_in_
+            X,
+            values=data_orig_space,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1302,7 +1306,9 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         X_inverse = rbf_coeff @ self.inv_coeff_matrix_
         return self._same_type_X(
-            X, values=X_inverse, feature_names=self.feature_names_in_
+            X,
+            values=X_inverse,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
-- 
2.43.0


From 87f6303c22401381f04583260eaf11bd86de1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 032/140] fix: TSCTakensEmbedding must not rename the columns
 of the input data

---
 datafold/dynfold/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index a2e2a7b..2ab56f9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -624,6 +624,8 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         # in case the column in not string it is important to transform it here to
         # string. Otherwise, There are mixed types (e.g. int and str), because the
         # delayed columns are all strings to indicate the delay number.
+        # The copy prevents that the user's data is changed.
+        X = X.copy()
         X.columns = X.columns.astype(np.str_)
         return X
 
-- 
2.43.0


From 9f980af387b1725c3aa613673b35a3586268cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 033/140] fix: order of feature names in
 TSCApplyLambdas.get_feature_names_out

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 2ab56f9..f9577a9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1477,8 +1477,8 @@ class TSCApplyLambdas(BaseEstimator, TSCTransformerMixin):
         return np.array(
             [
                 f"{feature_name}_lambda{i}"
-                for feature_name in feature_names_in
                 for i in range(len(self.lambdas))
+                for feature_name in feature_names_in
             ]
         )
 
-- 
2.43.0


From c5573f72d751e595da19ed33e283979506a17376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 034/140] fix: feature names in
 TSCFiniteDifference.get_feature_names_out

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index f9577a9..60ed3ae 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1597,7 +1597,7 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
     def get_feature_names_out(self, input_features=None):
         if input_features is None:
             input_features = self.feature_names_in_
-        return [f"{col}_dot" for col in input_features]
+        return [f"{col}_dot{self.diff_order}" for col in input_features]
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "TSCFiniteDifference":
         """Set and validate time spacing between samples.
-- 
2.43.0


From 4c30f2cc46557fa60fe5b649353596f6083b01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 035/140] fix: discard the inverse map of a previous fit in
 TSCRadialBasis

---
 datafold/dynfold/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 60ed3ae..46745b9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1220,6 +1220,10 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         self._setup_feature_attrs_fit(X)
 
+        # the matrix belongs to the centers of a previous fit
+        if hasattr(self, "inv_coeff_matrix_"):
+            del self.inv_coeff_matrix_
+
         return self
 
     def transform(self, X: TransformType) -> TransformType:
-- 
2.43.0


From bcd5342d90904846f1f04d76480ddbb4cb6d1fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 036/140] fix: number of output features in
 TSCColumnTransformer

---
 datafold/dynfold/compose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/compose.py b/datafold/dynfold/compose.py
index 5cd922e..28ba66a 100644
--- a/datafold/dynfold/compose.py
+++ b/datafold/dynfold/compose.py
@@ -65,7 +65,7 @@ class TSCColumnTransformer(compose.ColumnTransformer, TSCTransformerMixin):
     @property
     def n_features_out_(self):
         check_is_fitted(self, "transformers_")
-        return sum(tr.n_features_out_ for _, tr, _ in self.transformers_)
+        return len(self.get_feature_names_out())
 
     def _hstack(self, Xs):
         if self.sparse_output_:
-- 
2.43.0


From 338e6814e71fbb8d3a00235bfce6886271f66273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 037/140] fix: TSCIdentity.inverse_transform for arrays and
 renamed features

---
 datafold/dynfold/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 46745b9..0e36a3f 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -366,11 +366,14 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self.include_const:
-            X = X.copy(deep=True)
             if self._has_feature_names(X):
                 X = X.drop("const", axis=1)
             else:
-                X = X[:, :-1]
+                X = X[:, :-1].copy()
+
+        if self.rename_features and self._has_feature_names(X):
+            X = X.copy(deep=True)
+            X.columns = pd.Index(self.feature_names_in_, name=X.columns.name)
 
         return X
 
-- 
2.43.0


From 1b2eec9d4398695834ccf6c672e1618312770558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 038/140] fix: TSCPolynomialFeatures.transform for arrays

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 0e36a3f..f025276 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1437,7 +1437,7 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
             X,
             values=poly_data,
             feature_names=self.get_feature_names_out(
-                input_features=self.feature_names_in_
+                input_features=getattr(self, "feature_names_in_", None)
             ),
         )
 
-- 
2.43.0


From 78f73b7d33f163f56c18b0288d11eb048a35f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 039/140] fix: select features by name in TSCFeatureSelect

---
 datafold/dynfold/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index f025276..b7b3573 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -194,9 +194,9 @@ class TSCFeatureSelect(BaseEstimator, TSCTransformerMixin):
         self.features = features
 
     def get_feature_names_out(self, input_features=None):
-        if self.features.dtype == np.str_:
+        if np.issubdtype(self.features.dtype, np.str_):
             return self.features
-        elif self.features.dtype == np.int_:
+        elif np.issubdtype(self.features.dtype, np.integer):
             return self.feature_names_in_[self.features]
         else:
             raise ValueError(f"{self.features.dtype=} is not supported")
-- 
2.43.0


From f6489aae6f450dd413e661bcf6e1029b6795ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 040/140] fix: TSCTakensEmbedding with integer kappa and
 integer data

---
 datafold/dynfold/transform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index b7b3573..0aa1e2d 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -823,9 +823,8 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
             )
 
             if self.kappa > 0:
-                if isinstance(self.kappa, float):
-                    delayed_data = delayed_data.astype(float)
-                delayed_data *= kappa_vec
+                # not in-place because of data with integer type
+                delayed_data = delayed_data * kappa_vec
 
             # cast back to DataFrame, and adapt the index by excluding removed indices
             df = pd.DataFrame(
-- 
2.43.0


From 84fa4f6ff0015f1c3ac10450a9bcd26252087ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 041/140] fix: keep the feature names of the input in
 TSCIncrementalPCA.fit

---
 datafold/dynfold/transform.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 0aa1e2d..bc6f54b 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -393,7 +393,12 @@ class TSCIncrementalPCA(IncrementalPCA, TSCTransformerMixin):  # pragma: no cove
         super().partial_fit(X, y=y)
 
         if self.n_samples_seen_ == X.shape[0]:
-            self._setup_feature_attrs_fit(X)
+            if check_input:
+                self._setup_feature_attrs_fit(X)
+            else:
+                # called from `fit` of the super class with batches of type np.ndarray; the
+                # attributes of the input were already set
+                self.n_features_out_ = self.n_components_
         return self
 
     def transform(self, X):
-- 
2.43.0


From f4319e9896a9f844bf5ea88a766bf15d1aedbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 042/140] fix: FourierRBF.fit

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index bc6f54b..2886184 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -965,7 +965,7 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
     def fit(self, X, y=None, **fit_params):
         self._setup_feature_attrs_fit(X, n_features_out=2 * self.n_features)
 
-        self._read_fit_params(None, **fit_params)
+        self._read_fit_params(attrs=None, fit_params=fit_params)
 
         # sample features components
         self.fourier_components_ = np.zeros([X.shape[1], self.n_features])
-- 
2.43.0


From 94723a1d59f773b37828fc9c2825c0cb95af8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 043/140] fix: default feature names in evolve_system if the
 system matrix is overwritten

---
 datafold/dynfold/dynsystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index b0f6335..299a3a2 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -631,10 +631,10 @@ class LinearDynamicalSystem:
             time_series_ids = np.arange(initial_conditions.shape[1])
 
         if feature_names_out is None:
-            feature_names_out = np.arange(state_length)
+            feature_names_out = np.arange(n_features)
 
         if len(feature_names_out) != n_features:
-            raise ValueError(f"{len(feature_names_out)=} != {state_length=}")
+            raise ValueError(f"{len(feature_names_out)=} != {n_features=}")
 
         return (
             initial_conditions,
-- 
2.43.0


From 177a01ab352428c1d34470bfc2734e7b429a1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 044/140] fix: controlled differential systems must not ignore
 the control input

---
 datafold/dynfold/dynsystem.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 299a3a2..6cde28a 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -56,24 +56,27 @@ class SystemSolveStrategy:
         r"""Solves system:
         \dot{x} = A x + B u.
         """
-        time_series_tensor[:, 0, :] = initial_conditions
+        time_series_tensor[:, 0, :] = initial_conditions.T
         time_diff = np.diff(time_values)
 
         n_states = sys_matrix.shape[0]
         n_inputs = control_matrix.shape[1]
 
         for idx, tdiff in enumerate(time_diff):
+            # exact for a control input that is constant within the time step
             M = np.vstack(
-                [np.hstack([sys_matrix * tdiff]), control_matrix * tdiff],
-                np.zeros([n_inputs, n_states + n_inputs]),
+                [
+                    np.hstack([sys_matrix * tdiff, control_matrix * tdiff]),
+                    np.zeros([n_inputs, n_states + n_inputs]),
+                ]
             )
-            expM = np.linalg.expm(M)
+            expM = scipy.linalg.expm(M)
             Ad = expM[:n_states, :n_states]
-            Bd = expM[n_states:, :n_states]
+            Bd = expM[:n_states, n_states:]
 
-            time_series_tensor[:, idx + 1, :] = (
-                Ad @ time_series_tensor[:, idx, :] + Bd @ control_input[:, idx, :]
-            )
+            time_series_tensor[:, idx + 1, :] = np.real(
+                Ad @ time_series_tensor[:, idx, :].T + Bd @ control_input[:, idx, :].T
+            ).T
 
         return time_series_tensor
 
@@ -350,9 +353,12 @@ class SystemSolveStrategy:
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-            system_type == "differential" and system_mode == "matrix" and is_controlled
+            system_type == "differential"
+            and system_mode == "matrix"
+            and is_controlled
+            and not is_control_affine
         ):
-            return SystemSolveStrategy.differential_matrix
+            return SystemSolveStrategy.differential_matrix_controlled
         elif (
             system_type == "flowmap" and system_mode == "spectral" and not is_controlled
         ):
-- 
2.43.0


From 8f7b3fc17fd01fec9b9e0e6cd5dc8fb473f5aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 045/140] fix: step size guess beyond the time interval in
 affine controlled systems

---
 datafold/dynfold/dynsystem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 6cde28a..ec192e1 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -95,8 +95,14 @@ class SystemSolveStrategy:
         """
         # solve for each initial condition separately
         for i in range(initial_conditions.shape[1]):
+            # extrapolation is required because the solver evaluates the vector field also for
+            # its guess of the initial step size, which can be larger than the time interval
             interp_control = interp1d(
-                time_values, control_input[i], axis=0, kind="cubic"
+                time_values,
+                control_input[i],
+                axis=0,
+                kind="cubic",
+                fill_value="extrapolate",
             )
 
             affine_system_func = lambda t, state: (
-- 
2.43.0


From 02521165144547d43a4df7afa8a886e0567b6c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 046/140] fix: DMDStandard.fit must not change the parameter
 residual_filter

---
 datafold/dynfold/dmd.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dcd9ce4..9e134d8 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -900,19 +900,21 @@ class DMDStandard(DMDBase):
         residuals = np.sqrt(res_squared, out=res_squared)
 
         if isinstance(self.residual_filter, (float, int)):
-            self.residual_filter = dict(threshold=self.residual_filter)
-        elif not isinstance(self.residual_filter, dict):
+            residual_filter = dict(threshold=self.residual_filter)
+        elif isinstance(self.residual_filter, dict):
+            residual_filter = self.residual_filter
+        else:
             raise TypeError("residual_filter must be a float, int or dict.")
 
         # TODO: there is currently no validation if the user sets a wrong value
-        if self.residual_filter.get("threshold", False):
-            mask_keep = residuals <= self.residual_filter["threshold"]
-        elif self.residual_filter.get("quantile", False):
+        if residual_filter.get("threshold", False):
+            mask_keep = residuals <= residual_filter["threshold"]
+        elif residual_filter.get("quantile", False):
             mask_keep = residuals <= np.quantile(
-                residuals, self.residual_filter["quantile"]
+                residuals, residual_filter["quantile"]
             )
-        elif self.residual_filter.get("keep_n", False):
-            value = self.residual_filter["keep_n"]
+        elif residual_filter.get("keep_n", False):
+            value = residual_filter["keep_n"]
             res_n = np.partition(residuals, value - 1)[value - 1]
             mask_keep = residuals <= res_n
         else:
@@ -921,7 +923,7 @@ class DMDStandard(DMDBase):
                 "'quantile' or 'keep_n' must be available"
             )
 
-        if self.residual_filter.get("store_residuals", False):
+        if residual_filter.get("store_residuals", False):
             self.residuals_ = residuals
             self.residuals_mask_keep_ = mask_keep
 
@@ -948,7 +950,7 @@ class DMDStandard(DMDBase):
         if eigenvectors_left is not None:
             eigenvectors_left = eigenvectors_left[mask_keep, :]
 
-        if self.residual_filter.get("sort", False):
+        if residual_filter.get("sort", False):
             sortidx = np.argsort(residuals[mask_keep])  # from low to high
             eigenvalues = eigenvalues[sortidx]
             eigenvectors_right = eigenvectors_right[:, sortidx]
-- 
2.43.0


From 69fe953db65d7ba26cc8299c1ad3554c8d34fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 047/140] fix: reconstruct must return the time series in the
 order of the input

---
 datafold/dynfold/base.py | 4 +++-
 datafold/dynfold/dmd.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 3293189..608dd77 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -815,4 +815,6 @@ class TSCPredictMixin(TSCBase):
             )
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        # the time series are grouped by their time values -> recover the order as in X
+        X_reconstruct = pd.concat(X_reconstruct_ts, axis=0)
+        return X_reconstruct.loc[X.index, :]
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 9e134d8..0d45a21 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -464,7 +464,9 @@ class DMDBase(
             )
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        # the time series are grouped by their time values -> recover the order as in X
+        X_reconstruct = pd.concat(X_reconstruct_ts, axis=0)
+        return X_reconstruct.loc[X.index, :]
 
     def fit_predict(
         self, X: TSCDataFrame, *, U: Optional[TSCDataFrame] = None, y=None, **fit_params
-- 
2.43.0


From e8c8cf1584637310e1098fde8594a2f70e26a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 048/140] fix: compare delta times of datetime values in
 partial_fit

---
 datafold/dynfold/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 608dd77..fa6290b 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -684,10 +684,15 @@ class TSCPredictMixin(TSCBase):
                 "Currently, all methods require that dt_ is constant. "
             )
 
-        if np.abs(delta_time - self.dt_) > 1e-14:
+        if isinstance(delta_time, np.timedelta64):
+            tolerance = np.timedelta64(0)
+        else:
+            tolerance = 1e-14
+
+        if np.abs(delta_time - self.dt_) > tolerance:
             raise TSCException(
                 f"delta_time during fit was {self.dt_=}, now it is {delta_time=} "
-                f"({np.abs(delta_time - self.dt_)=} with set tolerance 1e-14) "
+                f"({np.abs(delta_time - self.dt_)=} with set {tolerance=}) "
             )
 
     def _validate_feature_names(
-- 
2.43.0


From 801c9c340c892bdf666d51effa99803338237760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 049/140] fix: vanishing residuals of spectral components must
 not turn into nan

---
 datafold/dynfold/dmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 0d45a21..0bfa31a 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -899,7 +899,8 @@ class DMDStandard(DMDBase):
             if np.abs(denom) > 1e-15:
                 res_squared[i] = (np.real(eigvec_conj @ num @ eigvec)) / denom[0]
 
-        residuals = np.sqrt(res_squared, out=res_squared)
+        # vanishing residuals can be slightly negative due to rounding errors
+        residuals = np.sqrt(np.maximum(res_squared, 0))
 
         if isinstance(self.residual_filter, (float, int)):
             residual_filter = dict(threshold=self.residual_filter)
-- 
2.43.0


From cd682fa7686d926f8ae5d5d46b3d39daa2984593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 050/140] fix: StreamingDMD must use all snapshot pairs of the
 first time series

---
 datafold/dynfold/dmd.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 0bfa31a..f63f394 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2235,17 +2235,25 @@ class StreamingDMD(DMDBase):
         return self
 
     def _separate_init_pairs(self, X: TSCDataFrame):
-        X_init_fit, X_other = X.iloc[0:2, :], X.iloc[2:, :]
+        X_init_fit = X.iloc[0:2, :]
         X_init_fit.tsc.check_tsc(ensure_n_timeseries=1)
 
         if X.has_degenerate():
             raise ValueError(
                 "The time series must contain time series with at least two "
-                "samples per time series. Note that the very first time series (to "
-                "fit the model initially) should contain either exactly two or "
-                "more than three time samples."
+                "samples per time series."
             )
 
+        n_samples_first = (X.index.get_level_values(0) == X_init_fit.ids[0]).sum()
+
+        if n_samples_first > 2:
+            # the last sample of the initial pair is the first of the following pair
+            X_other = X.iloc[1:, :]
+        elif X.shape[0] > 2:
+            X_other = X.iloc[2:, :]
+        else:
+            X_other = None
+
         return X_init_fit, X_other
 
     def _compute_koopman_matrix(self):
@@ -2292,7 +2300,7 @@ class StreamingDMD(DMDBase):
             X_init_fit, X = self._separate_init_pairs(X)
             self.fit(X_init_fit)
 
-            if X.empty:
+            if X is None:
                 return self
         else:
             self._validate_feature_names(X)
-- 
2.43.0


From 49498f5acd7706e3a3fc191e85d4ebd5d66338cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 051/140] fix: left eigenvectors of singular system matrices

---
 datafold/dynfold/dmd.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f63f394..164b2a3 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -41,9 +41,7 @@ def compute_spectral_components(system_matrix, is_diagonalize):
         #     The left eigenvectors are
         #          * not normed
         #          * row-wise in returned matrix
-        eigenvectors_left = np.linalg.solve(
-            mat_dot_diagmat(eigenvectors_right, eigenvalues), system_matrix
-        )
+        eigenvectors_left = np.linalg.inv(eigenvectors_right)
     else:
         eigenvectors_left = None
 
@@ -989,8 +987,7 @@ class DMDStandard(DMDBase):
              * row-wise in returned matrix
 
         """
-        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
-        return np.linalg.solve(lhs_matrix, system_matrix)
+        return np.linalg.inv(eigenvectors_right)
 
     def _compute_spectral_components(self, system_matrix, reconstruct):
         eigenvalues_, eigenvectors_right_ = sort_eigenpairs(
-- 
2.43.0


From 1372051787a804afc9473fb345856b38789878e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 052/140] fix: OnlineDMD with is_diagonalize=True

---
 datafold/dynfold/dmd.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 164b2a3..441266a 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2463,20 +2463,7 @@ class OnlineDMD(DMDBase):
                 f"samples (currently {self.timestep_})."
             )
 
-        evals, right_evec = np.linalg.eig(self.A)
-
-        if self.is_diagonalize:
-            left_evec = self._compute_left_eigenvectors(
-                system_matrix=self.A,
-                eigenvalues=evals,
-                eigenvectors_right=right_evec,
-            )
-            return sort_eigenpairs(
-                evals, right_eigenvectors=right_evec, left_eigenvectors=left_evec
-            )
-        else:
-            evals, right_evec = sort_eigenpairs(evals, right_evec)
-            return evals, right_evec, None
+        return compute_spectral_components(self.A, is_diagonalize=self.is_diagonalize)
 
     def _basic_initialize(self, X) -> None:
         """Initialize online DMD with epsilon small (1e-15) ghost snapshot pairs before t=0."""
@@ -2539,11 +2526,17 @@ class OnlineDMD(DMDBase):
 
         if self.ready_:
             (
-                self.eigenvalues_,
-                self.eigenvectors_right_,
-                self.eigenvectors_left_,
+                eigenvectors_right,
+                eigenvalues,
+                eigenvectors_left,
             ) = self._compute_spectral_components()
 
+            self.setup_spectral_system(
+                eigenvectors_right=eigenvectors_right,
+                eigenvalues=eigenvalues,
+                eigenvectors_left=eigenvectors_left,
+            )
+
         return self
 
     def partial_fit(self, X, y=None, **fit_params):
@@ -2627,8 +2620,8 @@ class OnlineDMD(DMDBase):
 
         if self.ready_:
             (
-                eigenvalues,
                 eigenvectors_right,
+                eigenvalues,
                 eigenvectors_left,
             ) = self._compute_spectral_components()
 
-- 
2.43.0


From 471f26bda296a449a3a1430132a7fe3ae8f474ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 053/140] fix: StreamingDMD must keep the leading POD modes

---
 datafold/dynfold/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 441266a..2c67d36 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2163,7 +2163,7 @@ class StreamingDMD(DMDBase):
         if self.max_rank is not None:
             if n_qx > self.max_rank:
                 evals, evecs = np.linalg.eig(self._Gx)
-                idx = np.argsort(evals)
+                idx = np.argsort(evals)[::-1]
 
                 # indices of largest eigenvalues
                 idx = idx[: self.max_rank]
@@ -2173,7 +2173,7 @@ class StreamingDMD(DMDBase):
                 self._Gx = np.diag(evals[idx])
             if n_qy > self.max_rank:
                 evals, evecs = np.linalg.eig(self._Gy)
-                idx = np.argsort(evals)
+                idx = np.argsort(evals)[::-1]
 
                 # indices of largest eigenvalues
                 idx = idx[: self.max_rank]
-- 
2.43.0


From 5551d968f02de5d2f991bbbca85deb12593d7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 054/140] fix: StreamingDMD.predict without time values and for
 arrays

---
 datafold/dynfold/dmd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2c67d36..dc38ad1 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2354,6 +2354,18 @@ class StreamingDMD(DMDBase):
             `(n_time_values, n_features)`.
         """
         check_is_fitted(self)
+
+        time_values = self._validate_and_set_time_values_predict(
+            time_values=time_values, X=X, U=None
+        )
+
+        if isinstance(X, np.ndarray):
+            X = InitialCondition.from_array(
+                X, time_value=time_values[0], feature_names=self.feature_names_in_
+            )
+        else:
+            InitialCondition.validate(X, n_samples_ic=1)
+
         X, _, time_values = self._validate_features_and_time_values(
             X, U=None, time_values=time_values
         )
-- 
2.43.0


From 1db6d273fc7451a39a4a5178d80760ae04e03520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 055/140] fix: default score of all DMD variants

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dc38ad1..8d541a4 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -530,6 +530,7 @@ class PretrainedDMD(DMDBase):
         sys_type: Literal["flowmap", "differential"],
         sys_mode: Literal["spectral", "matrix"],
     ):
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type=sys_type, sys_mode=sys_mode)
 
     @classmethod
@@ -1609,6 +1610,7 @@ class DMDControl(DMDBase):
         **kwargs,
     ):
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="flowmap",
             sys_mode=sys_mode,
@@ -1787,6 +1789,7 @@ class gDMDAffine(DMDBase):
         self.diff_scheme = diff_scheme
         self.diff_accuracy = diff_accuracy
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="differential",
             sys_mode="matrix",
@@ -2096,6 +2099,7 @@ class StreamingDMD(DMDBase):
         self.max_rank = max_rank
         self.ngram = ngram
         self.incr_basis_tol = incr_basis_tol
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _gram_schmidt(self, xm, xp):
@@ -2455,6 +2459,7 @@ class OnlineDMD(DMDBase):
         self.weighting = weighting
         self.is_diagonalize = is_diagonalize
         self.with_warm_up = with_warm_up
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _validate_parameters(self):
-- 
2.43.0


From 4d3a7d84ee2743556522a454f4972d2eb20f179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 056/140] fix: gDMDAffine for time series with different time
 values

---
 datafold/dynfold/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 8d541a4..fc4587f 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1807,8 +1807,8 @@ class gDMDAffine(DMDBase):
         )
         # trim samples where derivative is unknown
         # TODO: improve this by using pandas' indexing state and control_inp
-        X = state.select_time_values(Xdot_tsc.time_values()).to_numpy()
-        U = control_inp.select_time_values(Xdot_tsc.time_values()).to_numpy()
+        X = state.loc[Xdot_tsc.index, :].to_numpy()
+        U = control_inp.loc[Xdot_tsc.index, :].to_numpy()
         Xdot = Xdot_tsc.to_numpy()
 
         n_snapshots = X.shape[0]
-- 
2.43.0


From beb35c434a10d4ec99c1938849e0da1e981fe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 057/140] fix: match control input and initial conditions by ID

---
 datafold/dynfold/dmd.py                  | 12 +++++++-----
 datafold/pcfold/timeseries/collection.py |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index fc4587f..b1ceda2 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -214,16 +214,18 @@ class DMDBase(
         # initial condition is numpy-only, from now on, and column-oriented
         initial_states_origspace = X_ic.to_numpy().T
 
+        time_series_ids = X_ic.index.get_level_values(
+            TSCDataFrame.tsc_id_idx_name
+        ).to_numpy()
+
         if control_input is not None:
+            # match each initial condition with the control input of the same ID
+            control_input = control_input.loc[time_series_ids, :]
             # 3-dim tensor for the control input over the predicted time horizon
             control_input = control_input.to_numpy().reshape(
-                len(control_input.ids), -1, len(control_input.columns)
+                len(time_series_ids), -1, len(control_input.columns)
             )
 
-        time_series_ids = X_ic.index.get_level_values(
-            TSCDataFrame.tsc_id_idx_name
-        ).to_numpy()
-
         if len(np.unique(time_series_ids)) != len(time_series_ids):
             # check if duplicate ids are present
             raise ValueError("time series ids have to be unique")
diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a8710d5..5b44a33 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1995,7 +1995,7 @@ class InitialCondition:
 
     @classmethod
     def validate_control(cls, X_ic: TSCDataFrame, U: TSCDataFrame):
-        X_ic.tsc.check_contain_required_ids(required_ids=U.ids, check_order=True)
+        X_ic.tsc.check_contain_required_ids(required_ids=U.ids)
         U.tsc.check_equal_timevalues()
 
         last_state_time = X_ic.final_states(1).time_values()[0]
-- 
2.43.0


From e3bd88f47d8c35aeaa71f1f9254c3228464cefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 058/140] fix: predictions with control input given as an array

---
 datafold/dynfold/base.py | 10 ++--------
 datafold/dynfold/dmd.py  |  2 +-
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index fa6290b..4fb6381 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -566,14 +566,8 @@ class TSCPredictMixin(TSCBase):
                         )
 
                 else:
-                    time_values = np.arange(
-                        reference,
-                        reference
-                        + _numerical_tol
-                        + (U.shape[0] + int(not req_last_control_state))  # type: ignore
-                        * dt,
-                        dt,
-                    )
+                    n_time_values = U.shape[0] + int(not req_last_control_state)  # type: ignore
+                    time_values = reference + np.arange(n_time_values) * dt
             else:
                 time_values = np.array([reference, reference + dt])
         else:
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index b1ceda2..aee2832 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -379,7 +379,7 @@ class DMDBase(
                     U,
                     control_names=self.control_names_in_,
                     dt=self.dt_,
-                    time_values=time_values,
+                    time_values=time_values[: U.shape[0]],
                     ts_id=int(X.ids[0]) if isinstance(X, TSCDataFrame) else None,
                 )
                 # TODO: include pd.DataFrame type (turn to TSCDataFrame)
-- 
2.43.0


From 42f45623de1f50f5dbaa43579b3b9f357c68cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 059/140] fix: compare datetime values of control input and
 prediction

---
 datafold/dynfold/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 4fb6381..dd18491 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -534,8 +534,10 @@ class TSCPredictMixin(TSCBase):
         # comparing time values in floating points is tricky, because what should be equal
         # mathematically has tiny numerical difference -- this parameter is used
         # within this function as a tolerance value
-        if isinstance(reference, (int, np.int_, np.datetime64)):
+        if isinstance(reference, np.datetime64):
             # no tol required for interger and interger-based datetime
+            _numerical_tol = np.timedelta64(0, "ns")
+        elif isinstance(reference, (int, np.int_)):
             _numerical_tol = 0
         else:
             _numerical_tol = 1e-14
-- 
2.43.0


From af905a8df7f7621256d8f7c3b767b5a9d85ee9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 060/140] fix: controlled DMD reconstruction has exactly the
 time values of the data

---
 datafold/dynfold/dmd.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index aee2832..0a04aee 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -458,10 +458,7 @@ class DMDBase(
             else:
                 U_ic = None
 
-            # use time_values from U_ic if available, else set time_values
-            X_ts = self.predict(
-                X=X_ic, U=U_ic, time_values=time_values if U is None else None
-            )
+            X_ts = self.predict(X=X_ic, U=U_ic, time_values=time_values)
             X_reconstruct_ts.append(X_ts)
 
         # the time series are grouped by their time values -> recover the order as in X
-- 
2.43.0


From 73847334ff0d729afb083e5ba945b36916866f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 061/140] fix: OnlineDMD initialization cancels all digits for
 data with noise

---
 datafold/dynfold/dmd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 0a04aee..548de10 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2482,12 +2482,17 @@ class OnlineDMD(DMDBase):
         return compute_spectral_components(self.A, is_diagonalize=self.is_diagonalize)
 
     def _basic_initialize(self, X) -> None:
-        """Initialize online DMD with epsilon small (1e-15) ghost snapshot pairs before t=0."""
+        """Initialize online DMD with epsilon small (1e-8) ghost snapshot pairs before t=0.
+
+        The factor is relative to the magnitude of the first data. A much smaller value
+        cancels out all significant digits in the (rank-1) updates of `_P`.
+        """
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
         n_states = X.shape[1]
 
-        epsilon = 1e-15
+        scale = np.mean(np.square(X.to_numpy()))
+        epsilon = 1e-8 * (scale if scale > 0 else 1.0)
         alpha = 1.0 / epsilon
 
         # TODO: maybe provide random_state in __init__?
-- 
2.43.0


From 2b27bd4eecf9c077c62ff7f237923d6e69e3a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 062/140] fix: DMD models discard the linear system of a
 previous fit

---
 datafold/dynfold/dmd.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 548de10..89e797a 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -152,6 +152,18 @@ class DMDBase(
 
         return post_map, user_set_modes, feature_columns
 
+    def _reset_linear_system(self) -> None:
+        """Discards the linear system of a previous fit, because a model can be fitted again."""
+        for attr in (
+            "sys_matrix_",
+            "control_matrix_",
+            "eigenvalues_",
+            "eigenvectors_right_",
+            "eigenvectors_left_",
+        ):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
     @abc.abstractmethod
     def fit(
         self,
@@ -1236,6 +1248,7 @@ class DMDStandard(DMDBase):
             tsc_kwargs=dict(ensure_const_delta_time=True),
         )
         self._validate_and_setup_fit_attrs(X=X)
+        self._reset_linear_system()
         self._validate_parameters()
 
         store_system_matrix, sample_weights = self._read_fit_params(
@@ -1507,6 +1520,7 @@ class gDMDFull(DMDBase):
             tsc_kwargs=dict(ensure_const_delta_time=True),
         )
         self._validate_and_setup_fit_attrs(X=X)
+        self._reset_linear_system()
 
         store_generator_matrix = self._read_fit_params(
             attrs=[("store_generator_matrix", False)], fit_params=fit_params
@@ -1696,6 +1710,7 @@ class DMDControl(DMDBase):
         )
 
         self._validate_and_setup_fit_attrs(X=X, U=U)
+        self._reset_linear_system()
         self._read_fit_params(None, fit_params=fit_params)
 
         sys_matrix, control_matrix = self._compute_koopman_and_control_matrix(X, U)
@@ -2030,6 +2045,7 @@ class PyDMDWrapper(DMDBase):
             tsc_kwargs=dict(ensure_const_delta_time=True),
         )
         self._validate_and_setup_fit_attrs(X=X)
+        self._reset_linear_system()
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
         self._setup_pydmd_model()
@@ -2218,6 +2234,7 @@ class StreamingDMD(DMDBase):
             )
 
         self._validate_and_setup_fit_attrs(X)
+        self._reset_linear_system()
 
         s1, s2 = X.iloc[0, :].to_numpy(), X.iloc[1, :].to_numpy()
 
@@ -2489,6 +2506,7 @@ class OnlineDMD(DMDBase):
         """
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
+        self._reset_linear_system()
         n_states = X.shape[1]
 
         scale = np.mean(np.square(X.to_numpy()))
@@ -2518,9 +2536,10 @@ class OnlineDMD(DMDBase):
             This function is not intended to be used directly. Use py:meth:`partial_fit` from
             the start (also initial fit).
         """
-        self._validate_and_setup_fit_attrs(X)
         self._validate_parameters()
         X = self._validate_datafold_data(X, ensure_tsc=True)
+        self._validate_and_setup_fit_attrs(X)
+        self._reset_linear_system()
 
         Xm, Xp = X.tsc.shift_matrices(snapshot_orientation="row")
 
-- 
2.43.0


From fe83263dd6b2cf4911d51cd7cb7d859d098d7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 063/140] fix: a failed fit must not change the feature
 attributes of a fitted model

---
 datafold/dynfold/base.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index dd18491..966dc7d 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -449,13 +449,6 @@ class TSCPredictMixin(TSCBase):
                 f"Only TSCDataFrame can be used for control data (got {type(U)=})."
             )
 
-        self.n_features_in_ = X.shape[1]
-        self.feature_names_in_ = X.columns
-
-        if is_controlled:
-            self.n_control_in_ = U.shape[1]  # type: ignore
-            self.control_names_in_ = U.columns  # type: ignore
-
         time_values = X.time_values()
         time_values = self._validate_time_values_format(time_values=time_values)
 
@@ -475,23 +468,33 @@ class TSCPredictMixin(TSCBase):
                 "control input in `U` (i.e. corresponding ID and time value)."
             )
 
-        self.dt_ = X.delta_time
+        dt = X.delta_time
 
-        if isinstance(self.dt_, pd.Series) or np.isnan(self.dt_):
-            # Series if dt_ is not the same for all time series in the data.
+        if isinstance(dt, pd.Series) or np.isnan(dt):
+            # Series if dt is not the same for all time series in the data.
             raise NotImplementedError(
-                "Currently, all algorithms assume a constant time "
-                f"delta. Got {X.time_delta=}."
+                f"Currently, all algorithms assume a constant time delta. Got {dt=}."
             )
 
         # TODO: check this closer why are there 5 decimals required?
-        assert (
-            np.around(
-                (np.max(time_values) - np.min(time_values)) / self.dt_, decimals=5
+        if (
+            np.around((np.max(time_values) - np.min(time_values)) / dt, decimals=5) % 1
+            != 0
+        ):
+            raise NotImplementedError(
+                "Currently, all algorithms assume that the time values of all time series "
+                f"are on a common grid with time delta {dt}."
             )
-            % 1
-            == 0
-        )
+
+        # the attributes are only set for valid data
+        self.n_features_in_ = X.shape[1]
+        self.feature_names_in_ = X.columns
+
+        if is_controlled:
+            self.n_control_in_ = U.shape[1]  # type: ignore
+            self.control_names_in_ = U.columns  # type: ignore
+
+        self.dt_ = dt
 
     def _validate_and_set_time_values_predict(
         self,
-- 
2.43.0


From fb1a600b0434a3c531715f7b7c2ebda52b571422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 064/140] fix: StreamingDMD must not invert numerical noise of
 the Gram matrix

---
 datafold/dynfold/dmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 89e797a..43b0bc9 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2277,9 +2277,9 @@ class StreamingDMD(DMDBase):
         # original: self.Qx.T @ self.Qy @ self.A @ np.linalg.pinv(self.Gx)
         # here I write it specifically as a linear regression
         # return self.Qx.T @ self.Qy @ self.A @ np.linalg.pinv(self.Gx)
-        return np.linalg.lstsq(self._Gx.T, (self._Qx.T @ self._Qy @ self.A).T, rcond=0)[
-            0
-        ].T
+        return np.linalg.lstsq(
+            self._Gx.T, (self._Qx.T @ self._Qy @ self.A).T, rcond=None
+        )[0].T
 
     def _compute_spectral_components(self):
         Ktilde = self._compute_koopman_matrix()
-- 
2.43.0


From 96f817b64ebe276e937081d52e7c1c08cd74cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 065/140] fix: reject renamed features in transform for
 non-string feature names

---
 datafold/dynfold/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 966dc7d..78f4f0d 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -285,7 +285,22 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
 
         if direction == "transform":
             self._check_n_features(X, reset=False)
-            self._check_feature_names(X, reset=False)
+
+            feature_names_in = getattr(self, "feature_names_in_", None)
+
+            if (
+                isinstance(X, TSCDataFrame)
+                and feature_names_in is not None
+                and not isinstance(feature_names_in[0], str)
+            ):
+                # scikit-learn only validates feature names of type str
+                if not np.array_equal(feature_names_in, X.columns.to_numpy()):
+                    raise ValueError(
+                        f"The feature names do not match. Required: {feature_names_in}. "
+                        f"Got: {X.columns.to_numpy()}."
+                    )
+            else:
+                self._check_feature_names(X, reset=False)
         else:  # direction == inverse_transform
             should_n_features = self.n_features_out_
 
-- 
2.43.0


From fe12a1479d39d92cc0787816e073d1aef9d9cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 066/140] fix: LocalRegressionSelection with subsampling for
 data frames

---
 datafold/dynfold/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 38265ec..03583cc 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1568,7 +1568,7 @@ class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
         if not np.isinf(self.n_subsample):
-            X_numpy = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            X_numpy = np.asarray(X)
             eigvec = resample(
                 X_numpy,
                 replace=False,
-- 
2.43.0


From 0ee1a1ed9265d25e344eda97a87d78659393b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 067/140] fix: Roseland with landmarks selected from a data
 frame

---
 datafold/dynfold/dmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 03583cc..382e408 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -964,10 +964,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             )
 
         if n_landmarks == X.shape[0]:
-            landmarks = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            landmarks = np.asarray(X)
         else:
             landmarks, _ = random_subsample(
-                X.to_numpy() if isinstance(X, TSCDataFrame) else X,
+                np.asarray(X),
                 n_landmarks,
                 random_state=self.random_state,
             )
-- 
2.43.0


From 3421ba2af92eeefeab53fc444fe6d839a70fc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 068/140] fix: projection_matrix_from_feature_names must
 respect the requested order

---
 datafold/utils/general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index a94b387..81900b5 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -237,9 +237,10 @@ def projection_matrix_from_feature_names(
     scipy.sparse.csr_matrix
         projection matrix
     """
-    project_indices = np.where(np.isin(features_all, features_select))[0]
+    # position of each selected feature name (in the order of features_select)
+    project_indices = pd.Index(features_all).get_indexer(pd.Index(features_select))
 
-    if len(project_indices) != len(features_select):
+    if (project_indices < 0).any():
         raise ValueError(
             "Not all features from 'feature_select' are contained in 'features_all'."
         )
-- 
2.43.0


From 761668ae81e93510010682900fd43334128c3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 069/140] fix: EDMD.partial_fit must attach the original states
 to the dictionary

---
 datafold/appfold/edmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a9865b5..a022cf0 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1376,14 +1376,14 @@ class EDMD(
         X_dict = self._partial_fit(X, y, **fit_params)
 
         if initial_fit:
-            self.dict_preserves_id_state_ = self._validate_dictionary()
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
 
         if initial_fit:
             self.n_samples_ic_ = self._compute_n_samples_ic(X, X_dict)
 
         if self.include_id_state and not self.dict_preserves_id_state_:
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
-        elif not self.include_id_state and not not self.dict_preserves_id_state_:
+        elif not self.include_id_state and not self.dict_preserves_id_state_:
             raise NotImplementedError(
                 "Currently, there is no implementation to partial_fit non-trivial update of "
                 "the modes. Either the dictionary must preserve the id states or "
-- 
2.43.0


From a1fd0e4227aa47d21ddd0bc6084b52cf6706136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 070/140] fix: EDMD.transform of arrays creates exactly one
 time value per row

---
 datafold/appfold/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a022cf0..aaa1735 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1438,7 +1438,7 @@ class EDMD(
             X = TSCDataFrame.from_array(
                 X,
                 feature_names=self.feature_names_in_,
-                time_values=np.arange(0, self.dt_ * X.shape[0], self.dt_),
+                time_values=np.arange(X.shape[0]) * self.dt_,
             )
 
         if self.include_id_state:
-- 
2.43.0


From fea5fce678e013bcfbc2b193b932f65704ade1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 071/140] fix: EDMD predictions with use_transform_inverse must
 apply the control input

---
 datafold/appfold/edmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index aaa1735..400083a 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -857,7 +857,10 @@ class EDMD(
 
         else:
             # predict all EDMD-dictionary time series
-            X_ts = self.dmd_model.predict(X_dict, time_values=time_values)
+            dmd_params = dict(U=U, time_values=time_values)
+            dmd_params = {k: v for k, v in dmd_params.items() if v is not None}
+
+            X_ts = self.dmd_model.predict(X_dict, **dmd_params)
 
             # transform from EDMD-dictionary space by pipeline inverse_transform
             X_ts = self.inverse_transform(X_ts)
-- 
2.43.0


From f90ee07299ea5e2828bb4e9c4d87db3bedeaa37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 072/140] fix: TSCMovingAverage.fit accepts the ignored y
 (pipelines with targets)

---
 datafold/dynfold/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 2886184..cbd14d3 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1022,7 +1022,7 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
 
         return [f"{n}_ma{self.window}" for n in input_features]
 
-    def fit(self, X: TSCDataFrame, **fit_params):
+    def fit(self, X: TSCDataFrame, y=None, **fit_params):
         """Fit the model.
 
         Parameters
@@ -1030,6 +1030,9 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
         X
             Time series collection data
 
+        y: None
+            ignored
+
         **fit_params
             None
 
-- 
2.43.0


From 7e5c5fdfd68b6f46cb10407a8821dbf10fcf6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 073/140] fix: EDMD.inverse_transform labels the predicted
 features (state transition map)

---
 datafold/appfold/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 400083a..dfb0c1d 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1575,7 +1575,7 @@ class EDMD(
             values = X.to_numpy() @ self._inverse_map
 
             X_ts = df_type_and_indices_from(
-                indices_from=X, values=values, except_columns=self.feature_names_in_
+                indices_from=X, values=values, except_columns=self.feature_names_pred_
             )
 
         else:
-- 
2.43.0


From f456d37e3146bdab159fa6977848dc053eeee74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 074/140] fix: EDMD.reconstruct labels the rows of the right
 time series

---
 datafold/appfold/edmd.py | 43 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index dfb0c1d..b9d8a91 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -712,20 +712,22 @@ class EDMD(
     def _reconstruct(self, X: TSCDataFrame, U: Optional[TSCDataFrame], qois):
         X_reconstruct = []
 
-        if self.dmd_model.is_time_invariant and not X.is_datetime_index():
+        orig_index = X.index.copy(deep=True)
+
+        if (
+            self.dmd_model.is_time_invariant
+            and not X.is_datetime_index()
+            and U is None  # the time values of the control input must match those of X
+        ):
             # TODO: support for datetime_index requires implementation.
-            orig_index = X.index.copy(deep=True)
-            X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
-            normalized_time = True
-        else:
-            normalized_time = False
+            X = X.copy().tsc.shift_time_per_time_series(ensure_identical_values=True)
 
         for X_ic, time_values in InitialCondition.iter_reconstruct_ic(
             X, n_samples_ic=self.n_samples_ic_
         ):
             if U is not None:
                 U_select = U.loc[pd.IndexSlice[X_ic.ids, :], :]
-                InitialCondition.validate_control(X_ic, U)
+                InitialCondition.validate_control(X_ic, U_select)
             else:
                 U_select = None
 
@@ -744,27 +746,14 @@ class EDMD(
 
         X_reconstruct = pd.concat(X_reconstruct, axis=0)
 
-        if normalized_time:
-            # TODO: this can maybe be done better if it becomes in some scenario too
-            #  expensive
-            X.index = orig_index
-
-            if self.n_samples_ic_ > 1:
-
-                def _apply(df):
-                    # drop n instances of index and reset for X_reconstruct
-                    return (
-                        df.index[self.n_samples_ic_ - 1 :]
-                        .to_frame()
-                        .reset_index(drop=True)
-                    )
-
-                recovered_index = X.groupby(TSCDataFrame.tsc_id_idx_name).apply(_apply)
-                recovered_index = pd.MultiIndex.from_frame(recovered_index)
-            else:
-                recovered_index = orig_index
+        # The time series are grouped by their time values. Recover both the order of the
+        # time series and the original time values. The first samples of each time series
+        # are not part of the reconstruction if they are required for the initial condition.
+        sample_nr = pd.Series(0, index=X.index).groupby(level=0).cumcount().to_numpy()
+        is_reconstructed = sample_nr >= self.n_samples_ic_ - 1
 
-            X_reconstruct = X_reconstruct.set_index(recovered_index)
+        X_reconstruct = X_reconstruct.loc[X.index[is_reconstructed], :]
+        X_reconstruct = X_reconstruct.set_index(orig_index[is_reconstructed])
 
         # NOTE: time series contained in X_reconstruct can be shorter than
         # the original time series (i.e. no full reconstruction), because some transform
-- 
2.43.0


From ba0c5c28969c2ecb5469ee429ff921eae6602ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 075/140] fix: EDMDWindowPrediction selects the control input
 that matches each window

---
 datafold/appfold/edmd.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index b9d8a91..34050c5 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -2202,15 +2202,14 @@ class EDMDWindowPrediction:
             qois=qois, valid_feature_names=edmd.feature_names_pred_
         )
 
-        X_windows = TSCDataFrame.from_frame_list(
-            list(
-                X.tsc.iter_timevalue_window(
-                    window_size=edmd.window_size,
-                    offset=offset,
-                    per_time_series=True,
-                )
+        windows = list(
+            X.tsc.iter_timevalue_window(
+                window_size=edmd.window_size,
+                offset=offset,
+                per_time_series=True,
             )
         )
+        X_windows = TSCDataFrame.from_frame_list(windows)
 
         n_timesteps = X_windows.n_timesteps
         assert isinstance(n_timesteps, int) and n_timesteps == edmd.window_size
@@ -2238,35 +2237,18 @@ class EDMDWindowPrediction:
 
         if is_controlled:
             assert U is not None  # for mypy typing
+            # for every window of X select the matching control input, which starts at the
+            # last sample of the initial condition and ends before the last sample
             U_windows = TSCDataFrame.from_frame_list(
-                list(
-                    U.tsc.iter_timevalue_window(
-                        window_size=edmd.window_size,
-                        offset=offset,
-                        per_time_series=True,
-                    )
-                )
+                [U.loc[window.index[edmd.n_samples_ic_ - 1 : -1], :] for window in windows]
             )
 
-            group = lambda df: df.groupby(TSCDataFrame.tsc_id_idx_name)
-
-            # remove last state, because it is not needed for the prediction
-            U_windows = group(U_windows).head(edmd.window_size - 1)
-            U_n_timesteps = U_windows.n_timesteps
-            assert (
-                isinstance(U_n_timesteps, int) and U_n_timesteps == edmd.window_size - 1
-            )
-
-            # remove first states that are not needed during initial condition
-            drop_indices = group(U_windows).head(edmd.n_samples_ic_ - 1).index
-            U_windows = U_windows.drop(drop_indices, axis=0, errors="ignore")
-
             if return_windows:
                 index_final_windows_U = U_windows.index.copy()
             else:
                 index_final_windows_U = None
 
-            normalized_time_values = U_windows.loc[U_windows.ids[0]].index
+            normalized_time_values = normalized_time_values[edmd.n_samples_ic_ - 1 : -1]
             U_windows.index = pd.MultiIndex.from_product(
                 [U_windows.ids, normalized_time_values],
                 names=[TSCDataFrame.tsc_id_idx_name, TSCDataFrame.tsc_time_idx_name],
-- 
2.43.0


From f1e5a7c75d3d345affa5b18b67956480b76602e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 076/140] fix: stepwise EDMD prediction with control and
 several initial samples

---
 datafold/appfold/edmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 34050c5..99b575f 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -882,7 +882,8 @@ class EDMD(
             ]
 
             if U is not None:
-                _U_current = U.loc[pd.IndexSlice[:, current_ic_time], :]
+                # only the control input at the last sample of the initial condition
+                _U_current = U.loc[pd.IndexSlice[:, current_ic_time[-1:]], :]
             else:
                 _U_current = None
 
-- 
2.43.0


From 25f12cc9e686e9fbf21ed03f2121ddcc2b95740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 077/140] fix: EDMD.fit aligns the control input with the row
 order of the dictionary

---
 datafold/appfold/edmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 99b575f..00ed5ce 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1030,7 +1030,9 @@ class EDMD(
             # only attach original states if they are not preserved
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
 
-        if self.is_controlled_ and self.n_samples_ic_ > 1:
+        if self.is_controlled_ and (
+            self.n_samples_ic_ > 1 or not X_dict.index.equals(X.index)
+        ):
             # align index of control input with intersection of indices
             # Some keys may be dropped here (e.g. when using time delay embedding)
             assert U is not None  # for mypy typing
-- 
2.43.0


From 0eda7007af472bbd10023428c41b1d3f74d51d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 078/140] fix: KMPC.control_system_reference with systems that
 return the initial state

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 27547b6..3c4b054 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -558,7 +558,7 @@ class KMPC:
                 edmd_state = state.tsc.augment_control_input(U_next).iloc[[-1], :]
                 edmd_state = edmd_state.loc[:, self.edmd.feature_names_in_]
             else:
-                edmd_state = state.loc[:, self.edmd.feature_names_in_]
+                edmd_state = state.iloc[[-1], :].loc[:, self.edmd.feature_names_in_]
 
             # TODO: preallocating memory and writing in is more efficient than concat
             # store control input and state the sequence, which is used later for plotting
-- 
2.43.0


From 1c39ff30266d6aa3261cbb2b0358c4e876871ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 079/140] fix: KMPC.control_sequence_horizon labels the control
 sequence with the series of the state

---
 datafold/appfold/mpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 3c4b054..ff5265f 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -481,6 +481,7 @@ class KMPC:
             U.reshape((self.horizon, self.n_control_input)),
             time_values=control_time_values,
             feature_names=self.edmd.control_names_in_,
+            ts_id=X_dict.ids[0],
         )
         return U
 
-- 
2.43.0


From 5834c7d6c3e240c129012dfc20c63e7234810809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 080/140] fix: LQR.control_sequence with several controls or a
 preset target state

---
 datafold/appfold/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index ff5265f..97d9335 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -647,7 +647,7 @@ class LQR:
         if target_state is not None:
             target_state_dict = self.edmd.transform(target_state).to_numpy()
         elif hasattr(self, "_preset_target_state"):
-            target_state_dict = self._preset_target_state
+            target_state_dict = self._preset_target_state.to_numpy()
         else:
             raise ValueError(
                 "Target state must be provided either as a parameter or set with "
@@ -656,7 +656,7 @@ class LQR:
 
         u = -self.Flqr @ (self.edmd.transform(X).to_numpy() - target_state_dict).T
         u = TSCDataFrame.from_array(
-            u,
+            u.T,
             time_values=X.time_values()[-1],
             feature_names=self.edmd.control_names_in_,
             ts_id=X.ids[0],
-- 
2.43.0


From d23466e078862b00ad49f254ce3615c87a8956c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 081/140] fix: KMPC accepts bounds in the documented (max, min)
 order

---
 datafold/appfold/mpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 97d9335..292076f 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -350,15 +350,15 @@ class KMPC:
 
             # right hand side of inequality. NOTE: at this point 'h' is incomplete and
             # must be adapted with the initial condition of the system (which is unknown here)
-            Xlb = np.tile(self.state_bounds[:, 0], self.horizon)
-            Xub = np.tile(self.state_bounds[:, 1], self.horizon)
+            Xlb = np.tile(np.min(self.state_bounds, axis=1), self.horizon)
+            Xub = np.tile(np.max(self.state_bounds, axis=1), self.horizon)
             h = np.hstack([Xub, -Xlb])
         else:
             G, h = [None, None]
 
         if self.input_bounds is not None:
-            lb = np.tile(self.input_bounds[:, 0], self.horizon)
-            ub = np.tile(self.input_bounds[:, 1], self.horizon)
+            lb = np.tile(np.min(self.input_bounds, axis=1), self.horizon)
+            ub = np.tile(np.max(self.input_bounds, axis=1), self.horizon)
         else:
             lb, ub = [None, None]
 
-- 
2.43.0


From b9d96c3f285efb6e84591e260147d8cc30478974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 082/140] fix: init_distance_algorithm passes the number of
 neighbours to sklearn.knn

---
 datafold/pcfold/distance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 22ad4ba..1e5d994 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -1054,6 +1054,7 @@ def init_distance_algorithm(
         "metric": metric,
         "cut_off": cut_off,
         "kmin": k,
+        "k": k,
         "backend_options": backend_options,
     }
     keys = deepcopy(list(kwargs.keys()))
-- 
2.43.0


From d93a556d1d7cfa0bb1e9bb441d9ce7dd7f5e3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 083/140] fix: distance algorithms must not reuse the search
 tree of other reference points

---
 datafold/pcfold/distance.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 1e5d994..26cb57d 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -717,7 +717,11 @@ class ScipyKdTreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "kdtree_x_"):
+        if (
+            is_pdist
+            or not hasattr(self, "kdtree_x_")
+            or not np.array_equal(self.kdtree_x_.data, X)
+        ):
             self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
 
         if is_pdist:
@@ -727,10 +731,6 @@ class ScipyKdTreeDist(DistanceAlgorithm):
                 output_type="coo_matrix",
             )
         else:
-            if not hasattr(self, "kdtree_x_"):
-                # else reuse from pdist call
-                self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
-
             kdtree_y = scipy.spatial.cKDTree(Y, **self.backend_options)
 
             distance_matrix = kdtree_y.sparse_distance_matrix(
@@ -826,7 +826,11 @@ class SklearnBalltreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not np.array_equal(self.nn_._fit_X, X)
+        ):
             self.nn_ = self._fit_nearest_neighbor(X)
 
         if is_pdist:
@@ -859,7 +863,11 @@ class SklearnKNN(DistanceAlgorithm):
     def __call__(self, X, Y=None):
         X, Y, is_pdist = self._validate_X_Y(X, Y=Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not np.array_equal(self.nn_._fit_X, X)
+        ):
             self.nn_ = KNeighborsTransformer(
                 mode="distance",
                 n_neighbors=self.k,
-- 
2.43.0


From 679ec2b5af973e167d56b3c5cdc2d51d955bea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 084/140] fix: minimum number of neighbours without a finite
 distance cut-off

---
 datafold/pcfold/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 26cb57d..556a13d 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -374,7 +374,7 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
             (self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist)
         )
 
-        if apply_kmin_procedure:
+        if apply_kmin_procedure and scipy.sparse.issparse(distance_matrix):
             # kmin == 1 and is_pdist does not need treatment because the diagonal is set.
             distance_matrix = self._ensure_kmin_nearest_neighbor(
                 X,
-- 
2.43.0


From 5878698bd3721b9061c6385cd25cffca0a6cc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 085/140] fix: squared distances of the minimum number of
 neighbours

---
 datafold/pcfold/distance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 556a13d..0924a4a 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -323,6 +323,9 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
             nnz_distance_mask = (distances != 0).astype(bool)
             distances = distances[nnz_distance_mask]
 
+            if metric == "sqeuclidean":
+                distances = np.square(distances)
+
             knn_query_indices = np.repeat(knn_query_indices, kmin)[nnz_distance_mask]
 
             columns_indices = np.reshape(
-- 
2.43.0


From c85c6080276e7b1a7cffcf65baf2eaf8821521c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 086/140] fix: ThinplateKernel with sparse distance matrices

---
 datafold/pcfold/kernels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 55aed25..4b32c85 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -981,7 +981,12 @@ class ThinplateKernel(RadialBasisKernel):
         kernel_matrix = _apply_kernel_function_numexpr(
             distance_matrix, expr="D**2 * log(D)"
         )
-        kernel_matrix[np.isnan(kernel_matrix)] = 0
+        values = (
+            kernel_matrix.data
+            if scipy.sparse.issparse(kernel_matrix)
+            else kernel_matrix
+        )
+        values[np.isnan(values)] = 0
         return kernel_matrix
 
 
-- 
2.43.0


From 210ea2076d2588f3d934684c0b0399c65b80a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 087/140] fix: GaussianKernel must not print the estimated
 scale

---
 datafold/pcfold/kernels.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 4b32c85..22c7e01 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -807,7 +807,6 @@ class GaussianKernel(RadialBasisKernel):
                 self.epsilon = self.epsilon(distance_matrix.data)
             elif isinstance(distance_matrix, np.ndarray):
                 self.epsilon = self.epsilon(distance_matrix)
-                print(self.epsilon)
             else:
                 raise TypeError(
                     f"Invalid type: type(distance_matrix)={type(distance_matrix)}."
-- 
2.43.0


From 961826d3c8af98f24b2899a66d39b390944d283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 088/140] fix: kernels must not change the distance settings of
 the user

---
 datafold/pcfold/kernels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 22c7e01..30e72a6 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -702,6 +702,7 @@ class RadialBasisKernel(PCManifoldKernel, metaclass=abc.ABCMeta):
             if distance.metric != required_metric:
                 raise _metric_mismatch
         elif isinstance(distance, dict):
+            distance = dict(distance)
             _exist_metric = distance.pop("metric", None)
 
             if _exist_metric is None or _exist_metric == required_metric:
-- 
2.43.0


From 6613862204620f1337ef9d46b1b7691861fafd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 089/140] fix: ContinuousNNKernel.evaluate must not change the
 distance matrix

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 30e72a6..738ff54 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1233,7 +1233,7 @@ class ContinuousNNKernel(PCManifoldKernel):
         dist_knn = _kth_nearest_neighbor_dist(distance_matrix, self.k_neighbor)
 
         distance_factors = _symmetric_matrix_division(
-            distance_matrix,
+            distance_matrix.copy(),
             vec=np.sqrt(dist_knn),
             is_symmetric=self.distance.is_symmetric,
             vec_right=np.sqrt(self.reference_dist_knn_) if not is_pdist else None,
-- 
2.43.0


From 8ad090c92dbdbde470c4739bf2fffc590db9e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 090/140] fix: ContinuousNNKernel uses all distance settings of
 the user and requires k neighbours

---
 datafold/pcfold/kernels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 738ff54..34014a0 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1110,10 +1110,11 @@ class ContinuousNNKernel(PCManifoldKernel):
             self.k_neighbor = int(k_neighbor)
 
         if distance is None or isinstance(distance, dict):
-            distance = distance or {}
-            distance.setdefault("kmin", self.k_neighbor)
+            distance = dict(distance or {})
+            distance.setdefault("k", distance.pop("kmin", self.k_neighbor))
             distance.setdefault("metric", "euclidean")
-            distance = init_distance_algorithm(backend="guess_optimal", **distance)
+            distance.setdefault("backend", "guess_optimal")
+            distance = init_distance_algorithm(**distance)
         elif isinstance(distance, DistanceAlgorithm) and distance.dist_type == "knn":
             if distance.k < self.k_neighbor:
                 raise ValueError(
-- 
2.43.0


From 274f66c02a961906e08aa671295ccc350a3c28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 091/140] fix: ContinuousNNKernel with distance algorithm
 objects

---
 datafold/pcfold/kernels.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 34014a0..a30bd88 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1118,18 +1118,21 @@ class ContinuousNNKernel(PCManifoldKernel):
         elif isinstance(distance, DistanceAlgorithm) and distance.dist_type == "knn":
             if distance.k < self.k_neighbor:
                 raise ValueError(
-                    f"{self.distance=} must have at least {self.k_neighbor=} neighbors"
+                    f"{distance=} must have at least {self.k_neighbor=} neighbors"
                 )
         elif (
             isinstance(distance, DistanceAlgorithm) and distance.dist_type == "range-nn"
         ):
-            if distance.kmin < self.k_neighbor:
+            if (
+                np.isfinite(distance.cut_off)
+                and (distance.kmin or 0) < self.k_neighbor
+            ):
                 raise ValueError(
-                    f"{self.distance=} must assure that each point has at least "
+                    f"{distance=} must assure that each point has at least "
                     f"{self.k_neighbor=} neighbors (set kmin)"
                 )
         else:
-            raise TypeError(f"{type(self.distance)=} not understood")
+            raise TypeError(f"{type(distance)=} not understood")
         self.distance = distance
         self.reference_dist_knn_: np.ndarray
         super().__init__(distance=distance)
-- 
2.43.0


From 0cb2e0d3164ba0de6a9e0ba158de12bd5d960583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 092/140] fix: RoselandKernel with density correction (alpha >
 0)

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index a30bd88..e1971df 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1786,7 +1786,7 @@ class RoselandKernel(PCManifoldKernel):
         return obj.A1 if is_sparse else obj
 
     def _normalize_density(self, kernel_matrix, is_fit):
-        is_sparse = scipy.sparse.spmatrix(kernel_matrix)
+        is_sparse = scipy.sparse.issparse(kernel_matrix)
 
         if is_fit:
             landmark_density = self._cast_array(kernel_matrix.sum(axis=0), is_sparse)
-- 
2.43.0


From febd57b80b5c8c10c794f3dab8cb12ad6707fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 093/140] fix: RoselandKernel applies the degree alpha of the
 density correction

---
 datafold/pcfold/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index e1971df..e2aa936 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1797,9 +1797,9 @@ class RoselandKernel(PCManifoldKernel):
 
         normalized_kernel_matrix = _symmetric_matrix_division(
             kernel_matrix,
-            vec=data_density,
+            vec=np.power(data_density, self.alpha),
             is_symmetric=False,
-            vec_right=landmark_density,
+            vec_right=np.power(landmark_density, self.alpha),
         )
 
         return normalized_kernel_matrix, landmark_density
-- 
2.43.0


From c7fb49efa915b20f0a6772a293db8769baadd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 094/140] fix: ConeKernel must not apply the cosine to the
 cosine of the angle

---
 datafold/pcfold/kernels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index e2aa936..fabf0fe 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2184,12 +2184,11 @@ class ConeKernel(TSCManifoldKernel):
 
             # special handling of (almost) duplicates -> denominator by zero leads to nan
             zero_mask = np.less_equal(denominator, 1e-14, out=zero_mask)
-            cos_matrix[row_idx, zero_mask] = 0.0  # -> np.cos(0) = 1 later
+            cos_matrix[row_idx, zero_mask] = 0.0  # no angular influence
             cos_matrix[row_idx, ~zero_mask] /= denominator[~zero_mask]
 
         # memory and cache efficient solving with no intermediate memory allocations:
-        # cos_matrix = 1 - self.zeta * np.square(np.cos(cos_matrix))
-        cos_matrix = np.cos(cos_matrix, out=cos_matrix)
+        # cos_matrix = 1 - self.zeta * np.square(cos_matrix)
         cos_matrix = np.square(cos_matrix, out=cos_matrix)
         cos_matrix = np.multiply(self.zeta, cos_matrix, out=cos_matrix)
         cos_matrix = np.subtract(1.0, cos_matrix, out=cos_matrix)
-- 
2.43.0


From dbc16b23dadbd8176fba11362818b0a593c0f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 095/140] fix: ConeKernel must not change the distance settings
 of the user

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index fabf0fe..f7769eb 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2068,7 +2068,7 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = distance or {}
+        distance = dict(distance or {})
 
         distance.setdefault("metric", "sqeuclidean")
 
-- 
2.43.0


From 9c2de8b97a27842ae1a14265b8a2945f4eb2a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 096/140] fix: all eigenpairs of sparse kernel matrices

---
 datafold/pcfold/eigsolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index b568c81..5320e59 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -82,6 +82,10 @@ def scipy_eigsolver(
             "check_finite": False
         }  # should be checked already
 
+        if scipy.sparse.issparse(kernel_matrix):
+            # the dense solvers do not accept sparse matrices
+            kernel_matrix = kernel_matrix.toarray()
+
     else:  # n_eigenpairs < matrix.shape[1]
         if kernel.is_symmetric:
             scipy_eigvec_solver = scipy.sparse.linalg.eigsh
-- 
2.43.0


From 8a195924b701a012ac8af20288982025cbae1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 097/140] fix: requested number of eigenpairs of non-symmetric
 kernels

---
 datafold/pcfold/eigsolver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index 5320e59..bf04e82 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -72,8 +72,11 @@ def scipy_eigsolver(
 
     # check only for n_eigenpairs == n_features and n_eigenpairs < n_features
     # wrong parametrized n_eigenpairs are catched in scipy functions
-    if n_eigenpairs == n_features:
-        if kernel._is_symmetric_kernel:
+    # (eigs cannot compute "n_features - 1" eigenpairs)
+    if n_eigenpairs == n_features or (
+        not kernel.is_symmetric and n_eigenpairs == n_features - 1
+    ):
+        if kernel.is_symmetric:
             scipy_eigvec_solver = scipy.linalg.eigh
         else:
             scipy_eigvec_solver = scipy.linalg.eig
@@ -121,6 +124,10 @@ def scipy_eigsolver(
 
     eigvals, eigvects = scipy_eigvec_solver(kernel_matrix, **solver_kwargs)
 
+    if n_eigenpairs < len(eigvals):
+        idx = np.argsort(-np.abs(eigvals), kind="stable")[:n_eigenpairs]
+        eigvals, eigvects = eigvals[idx], eigvects[:, idx]
+
     return eigvals, eigvects
 
 
-- 
2.43.0


From 43c3a06ecf8742aef49bf6e7a06374022030b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 098/140] fix: is_integer for floats with magnitude below one,
 nan and inf

---
 datafold/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index 81900b5..cd51bfc 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -98,7 +98,7 @@ def is_integer(n: object) -> bool:
 
     """
     return isinstance(n, (int, np.integer)) or (
-        isinstance(n, (float, np.floating)) and n / int(n) == 1.0
+        isinstance(n, (float, np.floating)) and float(n).is_integer()
     )
 
 
-- 
2.43.0


From af01e49fa0c59dc9c805aee0f7f16df99eb7c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 099/140] fix: removing noise of a sparse matrix must not write
 nan into the input

---
 datafold/utils/general.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index cd51bfc..12b4828 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -569,6 +569,7 @@ def remove_numeric_noise_symmetric_matrix(
         # need to preserve stored zeros (e.g. in case of distance matrices)
         # NOTE: there is no check that the sparse structure is symmetric, this leads to
         # wrong results if the symmetric value of a (non-negative) value is not there.
+        matrix = matrix.copy()
         matrix.data[matrix.data == 0] = np.nan
         matrix = (matrix + matrix.T) / 2.0
         matrix.data[np.isnan(matrix.data)] = 0
-- 
2.43.0


From 72c4e0200f2298d6d6b56db64819bcf173e8a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 100/140] fix: scalar in the symmetric division of sparse
 matrices

---
 datafold/pcfold/kernels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index f7769eb..8b569ff 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -181,7 +181,10 @@ def _symmetric_matrix_division(
 
     if scalar != 1.0:
         scalar = 1.0 / scalar
-        matrix = np.multiply(matrix, scalar, out=matrix)
+        if scipy.sparse.issparse(matrix):
+            matrix = matrix * scalar
+        else:
+            matrix = np.multiply(matrix, scalar, out=matrix)
 
     return matrix
 
-- 
2.43.0


From 7bdbd6e9bfcf32e697b1457e25679613eefe9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 101/140] fix: default time values of ODE systems

---
 datafold/utils/_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 111331b..d022fa6 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -42,7 +42,8 @@ class ODE(DynamicalSystem, metaclass=abc.ABCMeta):
             time_values = np.array([0, time_values])
             dt = time_values[1]
         if time_values is None:
-            time_values = np.array([0.0, self._default_step_size])
+            dt = self._default_step_size
+            time_values = np.array([0.0, dt])
         else:
             time_values = np.asarray(time_values)
             if len(time_values) == 1:
-- 
2.43.0


From dedbf1505076c913c88c765572dec90cdf22adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 102/140] fix: ODE systems keep the time series IDs of the
 initial conditions

---
 datafold/utils/_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index d022fa6..f7fb3dc 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -95,7 +95,7 @@ class ODE(DynamicalSystem, metaclass=abc.ABCMeta):
             else:
                 raise ValueError(f"Initial condition {i} failed.")
 
-        X_ret = TSCDataFrame.from_frame_list(X_ret)
+        X_ret = TSCDataFrame.from_frame_list(X_ret, ts_ids=X.ids)
         return X_ret
 
     @abc.abstractmethod
-- 
2.43.0


From 5ff07a7c4f6aadb246052d5280beee68b656d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 103/140] fix: every control channel of a controllable system
 uses its own column

---
 datafold/utils/_systems.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index f7fb3dc..baa1104 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -227,18 +227,15 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
                 # interpolates control input from data
                 U_interp = U.loc[[U.ids[i]], :].to_numpy()
 
-                interp_control = []
-
-                for j in range(self.n_control_in_):
-                    func = lambda t, x: interp1d(
-                        time_values[:-1],
-                        U_interp[:, j],
-                        kind="previous",
-                        fill_value="extrapolate",
-                    )(t)
-                    interp_control.append(func)
-
-                Ufunc = lambda t, x: np.array([[u(t, x) for u in interp_control]])
+                interp_control = interp1d(
+                    time_values[:-1],
+                    U_interp,
+                    axis=0,
+                    kind="previous",
+                    fill_value="extrapolate",
+                )
+
+                Ufunc = lambda t, x: interp_control(t)[np.newaxis, :]
 
             sol = solve_ivp(
                 # U should be a row-major mapping in datafold
-- 
2.43.0


From d2e682a1298b244e87294762799b5e4ed646b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 104/140] fix: controllable systems match control input by ID
 and keep the series IDs

---
 datafold/utils/_systems.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index baa1104..5c890d3 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -167,6 +167,14 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
         else:
             dt = self._default_step_size
 
+        # time series IDs of the initial conditions (and of 'U' if it is created here)
+        if isinstance(X, TSCDataFrame) and X.n_timeseries == X.shape[0]:
+            ts_ids = X.ids
+        elif isinstance(U, TSCDataFrame) and U.n_timeseries == X.shape[0]:
+            ts_ids = U.ids
+        else:
+            ts_ids = np.arange(X.shape[0])
+
         if not callable(U):
             if U is None:
                 # uncontrolled system evaluation
@@ -176,7 +184,12 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
                         "cannot be None. "
                     )
                 U = np.zeros([X.shape[0], len(time_values) - 1, self.n_control_in_])
-                U = TSCDataFrame.from_tensor(U, time_values=time_values[:-1])
+                U = TSCDataFrame.from_tensor(
+                    U,
+                    time_series_ids=ts_ids,
+                    feature_names=self.control_names_in_,
+                    time_values=time_values[:-1],
+                )
             elif isinstance(U, np.ndarray) and X.shape[0] == U.shape[0]:
                 if time_values is None:
                     raise ValueError(
@@ -186,7 +199,7 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
 
                 # Interpret as one-step prediction of multiple initial conditions
                 idx = pd.MultiIndex.from_arrays(
-                    [np.arange(U.shape[0]), np.ones(U.shape[0]) * time_values[0]]
+                    [ts_ids, np.ones(U.shape[0]) * time_values[0]]
                 )
                 U = TSCDataFrame(U, index=idx, columns=self.control_names_in_)
 
@@ -206,13 +219,20 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
             U.tsc.check_required_n_timesteps(len(time_values) - 1)
         elif isinstance(U, np.ndarray):
             U = TSCDataFrame.from_array(
-                U, time_values=time_values[:-1], feature_names=self.control_names_in_
+                U,
+                time_values=time_values[:-1],
+                feature_names=self.control_names_in_,
+                ts_id=ts_ids[0],
             )
 
         if isinstance(X, pd.DataFrame):
             # TODO: work with TSCDataFrame instead and cast to it if X is np.ndarray
             X = X.to_numpy()
 
+        if isinstance(U, TSCDataFrame):
+            # match initial conditions and control input by ID (or else by order)
+            u_ids = ts_ids if np.isin(ts_ids, U.ids).all() else U.ids
+
         X_sol = list()
 
         for i in range(X.shape[0]):
@@ -222,10 +242,10 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
                 # user specified input
                 Ufunc = U
             elif len(time_values) == 2:
-                Ufunc = lambda t, x: U.iloc[[i], :].to_numpy()
+                Ufunc = lambda t, x: U.loc[[u_ids[i]], :].to_numpy()
             else:
                 # interpolates control input from data
-                U_interp = U.loc[[U.ids[i]], :].to_numpy()
+                U_interp = U.loc[[u_ids[i]], :].to_numpy()
 
                 interp_control = interp1d(
                     time_values[:-1],
@@ -262,7 +282,7 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
                 )
             )
 
-        X_sol = TSCDataFrame.from_frame_list(X_sol)
+        X_sol = TSCDataFrame.from_frame_list(X_sol, ts_ids=ts_ids)
 
         if callable(U):
             X_sol_but_last = X_sol.tsc.drop_last_n_samples(1)
-- 
2.43.0


From 5a4911fdfd38e79a75e2373d25067e8aa0edc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 105/140] fix: last stage of the Runge-Kutta scheme in DCMotor

---
 datafold/utils/_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 5c890d3..f10c95e 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -1139,7 +1139,7 @@ class DCMotor(ControllableODE):
         k1 = self._f(None, X.T, U)
         k2 = self._f(None, X.T + k1 * dt / 2, U)
         k3 = self._f(None, X.T + k2 * dt / 2, U)
-        k4 = self._f(None, X.T + k1 * dt, U)
+        k4 = self._f(None, X.T + k3 * dt, U)
         X_next = X.T + (dt / 6) * (k1 + 2 * k2 + 2 * k3 + k4)
         return X_next.T
 
-- 
2.43.0


From 518495e803e494bd93389d479736553f08ceda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 106/140] fix: polar initial conditions of the Hopf system

---
 datafold/utils/_systems.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index f10c95e..7ba0772 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -460,15 +460,17 @@ class Hopf(ODE):
                 rt_ic = X.to_numpy()
             else:
                 rt_ic = X
+            rt_ic = np.asarray(rt_ic, dtype=float)
             adapt_ic = np.copy(rt_ic)
             adapt_ic[:, 0] = rt_ic[:, 0] * np.cos(rt_ic[:, 1])
             adapt_ic[:, 1] = rt_ic[:, 0] * np.sin(rt_ic[:, 1])
             if isinstance(X, pd.DataFrame):
-                X[:] = adapt_ic
-                X.columns = pd.Index(["x1", "x2"])
+                X = TSCDataFrame.from_same_indices_as(
+                    X, values=adapt_ic, except_columns=["x1", "x2"]
+                )
             else:
                 X, time_values, _ = self._prepare_ic_and_time_values(
-                    X=X, time_values=time_values, feature_names_in=["x1", "x2"]
+                    X=adapt_ic, time_values=time_values, feature_names_in=["x1", "x2"]
                 )
 
         X_cart = super().predict(
-- 
2.43.0


From ea85a632896be838e8e72855cf8a93c47845883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 107/140] fix: radius of Hopf states with an angle of pi/2

---
 datafold/utils/_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 7ba0772..b717756 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -483,7 +483,7 @@ class Hopf(ODE):
             X_cart_np = X_cart.to_numpy()
 
             theta = np.arctan2(X_cart_np[:, 1], X_cart_np[:, 0])
-            radius = X_cart_np[:, 0] / np.cos(theta)
+            radius = np.linalg.norm(X_cart_np, axis=1)
             X_ang_np = np.column_stack([radius, theta])
 
             X_ang = TSCDataFrame.from_same_indices_as(
-- 
2.43.0


From 4a1693550e54a4b2af10c843ad50e08ccdbf71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 108/140] fix: series IDs in the vectorized prediction of
 DCMotor

---
 datafold/utils/_systems.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index b717756..13243bf 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -1194,9 +1194,13 @@ class DCMotor(ControllableODE):
         X_all = np.zeros([X_ic.shape[0], n_timesteps, X_ic.shape[1]])
         X_all[:, 0, :] = X_ic
 
+        # match initial conditions and control input by ID (or else by order)
+        u_ids = X_ic.ids if np.isin(X_ic.ids, U.ids).all() else U.ids
+        U_all = np.stack([U.loc[[i], :].to_numpy() for i in u_ids])
+
         for i in range(n_timesteps - 1):
             # take every i-th element from the time series
-            current_control_action = U.iloc[i :: n_timesteps - 1].to_numpy()
+            current_control_action = U_all[:, i, :]
 
             # perform the next step according to the model
             X_all[:, i + 1, :] = self._runge_kutta(
@@ -1208,6 +1212,7 @@ class DCMotor(ControllableODE):
 
         X_all = TSCDataFrame.from_tensor(
             tensor=X_all,
+            time_series_ids=X_ic.ids,
             feature_names=self.feature_names_in_,
             time_values=time_values,
         )
-- 
2.43.0


From d9c24e66005e0c97f4938d8ede4cab6fef675d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 109/140] fix: systems use the IDs of initial conditions in row
 order

---
 datafold/utils/_systems.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 13243bf..784b879 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -169,7 +169,7 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
 
         # time series IDs of the initial conditions (and of 'U' if it is created here)
         if isinstance(X, TSCDataFrame) and X.n_timeseries == X.shape[0]:
-            ts_ids = X.ids
+            ts_ids = X.index.get_level_values(TSCDataFrame.tsc_id_idx_name).to_numpy()
         elif isinstance(U, TSCDataFrame) and U.n_timeseries == X.shape[0]:
             ts_ids = U.ids
         else:
@@ -1195,7 +1195,8 @@ class DCMotor(ControllableODE):
         X_all[:, 0, :] = X_ic
 
         # match initial conditions and control input by ID (or else by order)
-        u_ids = X_ic.ids if np.isin(X_ic.ids, U.ids).all() else U.ids
+        ts_ids = X_ic.index.get_level_values(TSCDataFrame.tsc_id_idx_name).to_numpy()
+        u_ids = ts_ids if np.isin(ts_ids, U.ids).all() else U.ids
         U_all = np.stack([U.loc[[i], :].to_numpy() for i in u_ids])
 
         for i in range(n_timesteps - 1):
@@ -1212,7 +1213,7 @@ class DCMotor(ControllableODE):
 
         X_all = TSCDataFrame.from_tensor(
             tensor=X_all,
-            time_series_ids=X_ic.ids,
+            time_series_ids=ts_ids,
             feature_names=self.feature_names_in_,
             time_values=time_values,
         )
-- 
2.43.0


From 114a7b751e99656bec12b1e1b38fd28b96484bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 110/140] fix: one-step simulation with a collection of control
 inputs

---
 datafold/utils/_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 784b879..d8fd4d2 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -152,7 +152,7 @@ class ControllableODE(ODE, metaclass=abc.ABCMeta):
         # TODO: cast time_values only containing a float/int to np.array([value])
         #   then check for one_step_sim
 
-        if isinstance(U, TSCDataFrame) and U.shape[0] > 1:
+        if isinstance(U, TSCDataFrame) and U.shape[0] > U.n_timeseries:
             U.tsc.check_const_time_delta()
             dt = U.delta_time
         elif time_values is not None:
-- 
2.43.0


From 8dcd9d60c83a612501942d4ccc79a4cd9b02eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 111/140] fix: diffusion maps with target coordinates and time
 exponent

---
 datafold/dynfold/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 382e408..bf0e5de 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -392,7 +392,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if self.time_exponent == 0:
             dmap_embedding = eigenvectors
         else:
-            eigvals_time = np.power(self.eigenvalues_, self.time_exponent)
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvals_time = np.power(eigvals, self.time_exponent)
             dmap_embedding = mat_dot_diagmat(np.asarray(eigenvectors), eigvals_time)
 
         if isinstance(eigenvectors, pd.DataFrame):
-- 
2.43.0


From 765d634524015313fb95327b726f4a316e5d675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 112/140] fix: outdated coefficients in the inverse transform
 of diffusion maps

---
 datafold/dynfold/dmap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index bf0e5de..62fd75b 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -453,6 +453,9 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
 
         self.target_coords_ = indices
 
+        # the coefficients belong to the previous coordinates
+        self.__dict__.pop("inv_coeff_matrix_", None)
+
         self.n_features_out_ = len(self.target_coords_)
 
         return self
@@ -523,6 +526,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         )
 
         self.X_fit_ = X
+        # the coefficients belong to a previous fit
+        self.__dict__.pop("inv_coeff_matrix_", None)
         kernel_matrix_ = self._dmap_kernel(X=X, **kernel_kwargs)
 
         # choose object to copy time information from, if applicable
-- 
2.43.0


From ad7d29af35747d995602fc5700eb730065115e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 113/140] fix: inverse transform of diffusion maps with time
 exponent

---
 datafold/dynfold/dmap.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 62fd75b..998cf85 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -689,7 +689,15 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
                 np.asarray(eigvec), _X, cond=None
             )[0]
 
-        X_orig_space = np.asarray(X) @ self.inv_coeff_matrix_
+        X_np = np.asarray(X)
+
+        if self.time_exponent != 0:
+            # undo the scaling of the embedding, because the coefficients map from the
+            # eigenvectors
+            _, eigvals = self._select_eigenpairs_target_coords()
+            X_np = mat_dot_diagmat(X_np, np.power(eigvals, -float(self.time_exponent)))
+
+        X_orig_space = X_np @ self.inv_coeff_matrix_
 
         try:
             feature_names = self.feature_names_in_
-- 
2.43.0


From b98b725facc4e66db490dfb81e0ae5efb744fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 114/140] fix: diffusion maps for pandas.DataFrame

---
 datafold/dynfold/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 998cf85..c2d565e 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -97,7 +97,7 @@ class _DmapKernelAlgorithms:
         eigvect /= np.linalg.norm(eigvect, axis=0)[np.newaxis, :]
 
         if index_from is not None:
-            eigvect = TSCDataFrame.from_same_indices_as(
+            eigvect = df_type_and_indices_from(
                 index_from,
                 eigvect,
                 except_columns=[f"ev{i}" for i in range(n_eigenpairs)],
@@ -536,7 +536,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             # dynamics-adapted kernels can drop samples from X)
             index_from: Optional[TSCDataFrame] = kernel_matrix_
         elif (
-            isinstance(self.X_fit_, TSCDataFrame)
+            isinstance(self.X_fit_, pd.DataFrame)
             and kernel_matrix_.shape[0] == self.X_fit_.shape[0]
         ):
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
@@ -610,7 +610,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             # if possible take time index from kernel_matrix (especially
             # dynamics-adapted kernels can drop samples from X)
             index_from: Optional[TSCDataFrame] = kernel_matrix_cdist
-        elif isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
+        elif isinstance(X, pd.DataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
             # series, then take indices from X_fit_ -- this only works if no samples are
             # dropped in the kernel computation.
-- 
2.43.0


From bdd3f0e7120a9c4b770cf4e693362def1d0cef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 115/140] fix: scaling with the time exponent in
 Roseland.fit_transform

---
 datafold/dynfold/dmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index c2d565e..c99562f 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1258,6 +1258,7 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         """
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
+        svdvec_left = self._perform_roseland_embedding(np.asarray(svdvec_left), svdvals)
 
         if isinstance(X, TSCDataFrame):
             svdvec_left = TSCDataFrame.from_same_indices_as(
-- 
2.43.0


From e04063baa896917c8b50fbf626759ad7dfbc9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 116/140] fix: target coordinates of Roseland for time series
 data

---
 datafold/dynfold/dmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index c99562f..24333f2 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1022,7 +1022,11 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         It is assumed that the model is already fit.
         """
         if hasattr(self, "target_coords_"):
-            svdvec_left = self.svdvec_left_[:, self.target_coords_]
+            if isinstance(self.svdvec_left_, pd.DataFrame):
+                svdvec_left = self.svdvec_left_.iloc[:, self.target_coords_]
+            else:
+                svdvec_left = self.svdvec_left_[:, self.target_coords_]
+
             svdvec_right = self.svdvec_right_[:, self.target_coords_]
             svdvals = self.svdvalues_[self.target_coords_]
         else:
-- 
2.43.0


From 226a1165377416a8ab42f6ebbcb0f0748a8f3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 117/140] fix: Roseland must not change its kernel parameter

---
 datafold/dynfold/dmap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 24333f2..a806c22 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1162,11 +1162,14 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             ensure_min_samples=2,
         )
 
-        if self.kernel is None:
-            self.kernel = self._get_default_kernel()
+        internal_kernel = (
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
+        )
 
         self.rose_kernel_ = RoselandKernel(
-            internal_kernel=self.kernel, alpha=self.alpha
+            internal_kernel=internal_kernel, alpha=self.alpha
         )
 
         kernel_matrix = self.rose_kernel_(self.landmarks_, X)
-- 
2.43.0


From d2c6428c523f19a6a7fbbe0a134b7e67d1c7ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 118/140] fix: Roseland for pandas.DataFrame

---
 datafold/dynfold/dmap.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index a806c22..f251b2b 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1235,14 +1235,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             svdvec_left_interp, svdvals
         )
 
-        if isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
-            roseland_embedding = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=roseland_embedding,
-                except_columns=self.get_feature_names_out(),
-            )
-
-        return roseland_embedding
+        return self._same_type_X(
+            X, values=roseland_embedding, feature_names=self.get_feature_names_out()
+        )
 
     def fit_transform(self, X: TransformType, y=None, **fit_params) -> np.ndarray:
         """Compute Roseland fit from data and apply embedding on the same data.
@@ -1267,14 +1262,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
         svdvec_left = self._perform_roseland_embedding(np.asarray(svdvec_left), svdvals)
 
-        if isinstance(X, TSCDataFrame):
-            svdvec_left = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=svdvec_left,
-                except_columns=self.get_feature_names_out(),
-            )
-
-        return svdvec_left
+        return self._same_type_X(
+            X, values=svdvec_left, feature_names=self.get_feature_names_out()
+        )
 
 
 class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
-- 
2.43.0


From b49f3641639c9449284706b6fc33ef80bda92acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 119/140] fix: raise error if a pandas.DataFrame is given where
 an array is required

---
 datafold/dynfold/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 78f4f0d..19387ad 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -142,7 +142,9 @@ class TSCBase:
 
             if type(X) == pd.DataFrame:
                 if ensure_np:
-                    TypeError(f"Found type {type(X)=} but type np.ndarray is required.")
+                    raise TypeError(
+                        f"Found type {type(X)=} but type np.ndarray is required."
+                    )
 
                 # special handling of pandas.DataFrame (strictly, not including
                 # TSCDataFrame) --> keep the type (recover after validation).
-- 
2.43.0


From b0e7f917d119ffa1e945075e9dcd1256ce34d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 120/140] fix: GeometricHarmonicsInterpolator predicts a row
 per sample also for a single sample

---
 datafold/dynfold/outofsample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3ef7a72..ba43591 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -243,7 +243,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         )
 
         kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
-        return np.squeeze(kernel_matrix_ @ self._aux)
+        y_hat = kernel_matrix_ @ self._aux
+
+        # a single target function is returned as a one-dimensional array
+        return y_hat[:, 0] if y_hat.shape[1] == 1 else y_hat
 
     @warn_known_bug(gitlab_issue=16)
     def gradient(self, X: np.ndarray, vcol: Optional[int] = None) -> np.ndarray:
-- 
2.43.0


From e3ceb7f70a1705960d953e71d47a65201996113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 121/140] fix: GeometricHarmonicsInterpolator.score must not
 ignore sample weights

---
 datafold/dynfold/outofsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index ba43591..a921211 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -370,7 +370,7 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         y_pred = self.predict(X)
 
         score = mean_squared_error(
-            y, y_pred, sample_weight=None, multioutput=multioutput
+            y, y_pred, sample_weight=sample_weight, multioutput=multioutput
         )
 
         if multioutput == "raw_values" and len(score) == 1:
-- 
2.43.0


From 959c8d9bbfcb198e17b5d65247818f9fa15a1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 122/140] fix: LaplacianPyramidsInterpolator does not terminate
 for mu=1

---
 datafold/dynfold/outofsample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index a921211..500e163 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -590,6 +590,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             "mu",
             target_type=(int, np.integer, float, np.floating),
             min_val=1,
+            include_boundaries="neither",
         )
 
         if isinstance(X, np.memmap):
-- 
2.43.0


From e6dc1df64f0540ca4a8ee52961108a903cba611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 123/140] fix: auto adaptive LaplacianPyramidsInterpolator
 terminates if the residual stagnates

---
 datafold/dynfold/outofsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 500e163..8454f0a 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -637,7 +637,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             if (
                 not np.isnan(last_residual_norm)  # nan if self.level_ <= 1
                 # stop if residual is  increasing
-                and current_residual_norm > last_residual_norm
+                and current_residual_norm >= last_residual_norm
             ):
                 signal = self._LoopCond.LOOCV_INCREASES
 
-- 
2.43.0


From 9b621d375478950599bcb9786588bd079f3c5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 124/140] fix: PCManifold must not ignore or share the distance
 settings

---
 datafold/pcfold/pointcloud.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fa1c2a..6fc54e0 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -79,7 +79,7 @@ class PCManifold(np.ndarray):
 
         # Set the kernel according to user input
         obj.kernel = kernel
-        obj.distance = dist_kwargs or {}
+        obj.dist_kwargs.update(dist_kwargs or {})
 
         return obj
 
@@ -108,7 +108,8 @@ class PCManifold(np.ndarray):
         # default parameters:
         self.kernel = getattr(obj, "kernel", GaussianKernel())
 
-        self.dist_kwargs = getattr(obj, "dist_kwargs", {})
+        # copy, such that a change of the settings does not affect the template object
+        self.dist_kwargs = dict(getattr(obj, "dist_kwargs", {}))
         self.dist_kwargs.setdefault("cut_off", np.inf)
         self.dist_kwargs.setdefault("kmin", 0)
         self.dist_kwargs.setdefault("backend", "guess_optimal")
-- 
2.43.0


From 432a1af81198e3361bbd3261292d507f1fe60588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 125/140] fix: deep copy of PCManifold must not share the
 kernel

---
 datafold/pcfold/pointcloud.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fc54e0..00478c8 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -125,6 +125,12 @@ class PCManifold(np.ndarray):
 
         return "\n".join([attributes_line, super().__repr__()])
 
+    def __deepcopy__(self, memo):
+        new_obj = super().__deepcopy__(memo)
+        new_obj.kernel = copy.deepcopy(self.kernel, memo)
+        new_obj.dist_kwargs = copy.deepcopy(self.dist_kwargs, memo)
+        return new_obj
+
     def __reduce__(self):
         # __reduce__ and __setstate__ are required for pickling (required if a model
         # such as DiffusionMaps that holds a PCManifold object is pickled)
-- 
2.43.0


From e9a09b7857b30a30584662d556e0441363e154ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 126/140] fix: pcm_subsample terminates only if less than
 min_added_per_iteration points are added

---
 datafold/pcfold/pointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 00478c8..d630f69 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -384,7 +384,7 @@ def pcm_subsample(
         subsample_indices = np.append(subsample_indices, current_indices_selected)
         subsample_points = pcm[subsample_indices, :]
 
-        if bool_mask_select_indices.sum() <= min_added_per_iteration:
+        if bool_mask_select_indices.sum() < min_added_per_iteration:
             # prematurely end loop, if not enough points are added
             break
 
-- 
2.43.0


From c3e4d73fa810b0e493d25c07f98b74422b197fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 127/140] fix: estimate_cutoff requires an integer k larger
 than one

---
 datafold/pcfold/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/estimators.py b/datafold/pcfold/estimators.py
index 03e94f0..3529770 100644
--- a/datafold/pcfold/estimators.py
+++ b/datafold/pcfold/estimators.py
@@ -56,7 +56,7 @@ def estimate_cutoff(
     """
     from datafold.utils.general import is_integer
 
-    if k <= 1 and not is_integer(k):
+    if k <= 1 or not is_integer(k):
         raise ValueError("Parameter 'k' must be an integer greater than 1.")
     else:
         k = int(k)
-- 
2.43.0


From 91f8e7a7eaaa645bca804895db1ac2d208faa7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 128/140] fix: estimate_cutoff with more neighbors than
 subsampled points

---
 datafold/pcfold/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/estimators.py b/datafold/pcfold/estimators.py
index 3529770..8a73a66 100644
--- a/datafold/pcfold/estimators.py
+++ b/datafold/pcfold/estimators.py
@@ -83,7 +83,7 @@ def estimate_cutoff(
             **dict(exact_numeric=False)
         )
 
-        k = np.min([k, distance_matrix.shape[1]])
+        k = np.min([k, distance_matrix.shape[0]])
         # need to transpose the matrix here to correctly work with
         # _kth_nearest_neighbor_dist
         k_smallest_values = _kth_nearest_neighbor_dist(distance_matrix.T, k)
-- 
2.43.0


From de52584c15bf5332b6cbd29c1d710b662e71288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 129/140] fix: invalid default in the distance settings of
 PCManifold

---
 datafold/pcfold/pointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index d630f69..6adbef7 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -111,7 +111,7 @@ class PCManifold(np.ndarray):
         # copy, such that a change of the settings does not affect the template object
         self.dist_kwargs = dict(getattr(obj, "dist_kwargs", {}))
         self.dist_kwargs.setdefault("cut_off", np.inf)
-        self.dist_kwargs.setdefault("kmin", 0)
+        self.dist_kwargs.setdefault("k", None)
         self.dist_kwargs.setdefault("backend", "guess_optimal")
 
     def __repr__(self):
-- 
2.43.0


From ed040ee95dc1886e93758ed80c37e2043c4e5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 130/140] fix: JointlySmoothFunctions with less functions
 available than requested

---
 datafold/dynfold/jsf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index e7e616e..54fecf7 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -234,6 +234,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 **(self.svd_solver_kwargs or {}),
             )
 
+        # there may be less functions available than requested
+        self._n_functions_out = jointly_smooth_functions.shape[1]
+
         if isinstance(X, TSCDataFrame):
             jointly_smooth_functions = TSCDataFrame.from_same_indices_as(
                 X,
@@ -280,7 +283,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         _dtype_probe = list(alphas.values())[0].dtype
         f_m_star = np.zeros(
-            [X.shape[0], self.n_jointly_smooth_functions], dtype=_dtype_probe
+            [X.shape[0], self.jointly_smooth_vectors_.shape[1]], dtype=_dtype_probe
         )
         tmp = np.zeros_like(f_m_star)
 
@@ -339,7 +342,10 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         return return_content
 
     def get_feature_names_out(self, input_features=None):
-        return np.array([f"jsf{i}" for i in range(self.n_jointly_smooth_functions)])
+        n_functions = getattr(
+            self, "_n_functions_out", self.n_jointly_smooth_functions
+        )
+        return np.array([f"jsf{i}" for i in range(n_functions)])
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "JointlySmoothFunctions":
         """Compute the jointly smooth functions on training data `X`.
-- 
2.43.0


From 3855ec2531c19080cd8cc8e8d6887088dd3c2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 131/140] fix: JointlySmoothFunctions for pandas.DataFrame

---
 datafold/dynfold/jsf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 54fecf7..d65a22e 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -165,7 +165,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 n_eigenpairs=self.n_kernel_eigenvectors,
             )
 
-            if isinstance(X, pd.DataFrame) and kernel_matrix.shape[0] == X.shape[0]:
+            if isinstance(X, TSCDataFrame) and kernel_matrix.shape[0] == X.shape[0]:
                 kernel_eigenvectors = TSCDataFrame.from_same_indices_as(
                     indices_from=X,
                     values=kernel_eigenvectors,
@@ -292,9 +292,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         f_m_star /= len(self.data_splits)  # divide by number of splits
 
-        if isinstance(X, TSCDataFrame) and hasattr(self, "feature_names_in_"):
-            f_m_star = TSCDataFrame.from_same_indices_as(
-                X, f_m_star, except_columns=self.get_feature_names_out()
+        if isinstance(X, pd.DataFrame) and hasattr(self, "feature_names_in_"):
+            f_m_star = self._same_type_X(
+                X, f_m_star, feature_names=self.get_feature_names_out()
             )
 
         return f_m_star
@@ -451,6 +451,13 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         )
         self.fit(X=X, y=y, **fit_params)
 
+        if isinstance(X, pd.DataFrame):
+            return self._same_type_X(
+                X,
+                np.asarray(self.jointly_smooth_vectors_),
+                feature_names=self.get_feature_names_out(),
+            )
+
         return self.jointly_smooth_vectors_
 
     def score_(self, X, y):
-- 
2.43.0


From 3069f004ea49ae1cc10907002c6b9f5287f0da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 132/140] fix: truncated energies and error threshold of
 JointlySmoothFunctions

---
 datafold/dynfold/jsf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index d65a22e..733295f 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -482,12 +482,12 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         for name in self.kernel_eigenvectors_:
             truncated_energy = np.linalg.norm(
                 np.asarray(self.kernel_eigenvectors_[name]).T
-                @ self.jointly_smooth_vectors_,
+                @ np.asarray(self.jointly_smooth_vectors_),
                 axis=0,
             )
             truncated_energies[name] = truncated_energy**2
 
-        return np.array(truncated_energies.values())
+        return np.array(list(truncated_energies.values()))
 
     def compute_E0(self) -> float:
         """Compute a threshold for the eigenvalues of the jointly smooth functions.
@@ -497,7 +497,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         float
             The E0 threshold value from :cite:t:`dietrich-2022`.
         """
-        kernel_evecs = list(self.kernel_eigenvectors_.values())
+        kernel_evecs = [np.asarray(v) for v in self.kernel_eigenvectors_.values()]
 
         noisy = kernel_evecs[-1].copy()
 
@@ -507,7 +507,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         kernel_eigenvectors = kernel_evecs[:-1]
         kernel_eigenvectors.append(noisy)
 
-        eigenvectors_matrix = np.column_stack(kernel_evecs)
+        eigenvectors_matrix = np.column_stack(kernel_eigenvectors)
 
         if len(kernel_eigenvectors) == 2:
             ev0 = kernel_eigenvectors[0]
-- 
2.43.0


From 208bd0ad9b6390d595758a5a0d821769e1c15b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 133/140] fix: GeometricHarmonicsInterpolator must not change
 the kernel of the user

---
 datafold/dynfold/outofsample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 8454f0a..8c86a66 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -1,4 +1,5 @@
 import enum
+from copy import deepcopy
 from typing import Optional
 
 import matplotlib.pyplot as plt
@@ -178,8 +179,11 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
             y = y[:, np.newaxis]
         check_consistent_length(X, y)
 
+        # copy, because kernels can contain data from a previous kernel evaluation
         internal_kernel = (
-            self.kernel if self.kernel is not None else self._get_default_kernel()
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
         )
 
         self._dmap_kernel = DmapKernelFixed(
-- 
2.43.0


From 9255c638b91e6c61bfaf1ecdbeb769e7ebd99ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 134/140] fix: experimental classes stay classes (pickle,
 isinstance and subclasses)

---
 datafold/_decorators.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/datafold/_decorators.py b/datafold/_decorators.py
index af7d625..205e6d8 100644
--- a/datafold/_decorators.py
+++ b/datafold/_decorators.py
@@ -56,8 +56,12 @@ def warn_experimental_class(cls):
     # From ( adapted example from "Creating Singletons"
     # https://realpython.com/primer-on-python-decorators/#decorating-classes
 
-    @wraps(cls)
-    def wrapper_class(*args, **kwargs):
+    # The class itself must be returned (not a function that creates the instances): otherwise
+    # instances cannot be pickled and the class cannot be subclassed or used in `isinstance`.
+    cls_init = cls.__init__
+
+    @wraps(cls_init)
+    def wrapper_init(self, *args, **kwargs):
         warnings.formatwarning = warning_format
         warnings.warn(
             f"Class '{cls.__name__}' is marked as experimental. This means "
@@ -65,9 +69,10 @@ def warn_experimental_class(cls):
             f"testing. Use class with caution!",
             stacklevel=1,
         )
-        return cls(*args, **kwargs)
+        cls_init(self, *args, **kwargs)
 
-    return wrapper_class
+    cls.__init__ = wrapper_init
+    return cls
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5b798fb29cca80db454d8dcc2135f5bf39696a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 135/140] fix: learning rate schedulers and validation losses
 in dictionary learning

---
 datafold/dynfold/dictlearning.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index bd4585c..df62f98 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -552,8 +552,18 @@ try:
             else:
                 early_stopping = None
 
-            require_val_loss = (lr_scheduler is not None) or (
-                early_stopping is not None
+            # only this scheduler depends on loss information
+            is_loss_scheduler = isinstance(
+                lr_scheduler, torch.optim.lr_scheduler.ReduceLROnPlateau
+            )
+
+            if is_loss_scheduler and not is_validation_available:
+                raise ValueError(
+                    "the learning rate scheduler requires validation data X_val"
+                )
+
+            require_val_loss = is_validation_available and (
+                is_loss_scheduler or early_stopping is not None or record_losses
             )
 
             if not require_val_loss and is_validation_available:
@@ -608,10 +618,9 @@ try:
 
                 # learning rate scheduler
                 if lr_scheduler is not None:
-                    try:
+                    if is_loss_scheduler:
                         lr_scheduler.step(current_val_loss)
-                    except TypeError:
-                        # some schedulers (e.g. StepLR) are not dependent on loss information
+                    else:
                         lr_scheduler.step()
 
                 # stop training if early stopping indicates
@@ -622,7 +631,7 @@ try:
                 if with_tqdm:
                     tqdm_output = dict(loss=current_train_loss)
 
-                    if is_validation_available:
+                    if require_val_loss:
                         tqdm_output["vloss"] = current_val_loss
                     if lr_scheduler is not None:
                         tqdm_output["lr"] = optimizer.param_groups[0]["lr"]
-- 
2.43.0


From 299f0a30ec7899f7190ae2ada27b61b99ba289c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 136/140] fix: reconstruction loss of the validation data in
 dictionary learning

---
 datafold/dynfold/dictlearning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index df62f98..38d44c8 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -360,7 +360,7 @@ try:
                 inverse_map = np.linalg.lstsq(
                     psi.to_numpy(), Xtorch.detach().numpy(), rcond=None
                 )[0]
-                inverse_map = torch.tensor(inverse_map).to(torch.float64)
+                inverse_map = torch.tensor(inverse_map).to(self.use_dtype)
             else:
                 inverse_map = None
 
@@ -435,7 +435,9 @@ try:
             )
 
             val_dataset = self._TorchValidatationDataset(
-                X_now=psi_now_aug[:, : X.shape[1]],
+                X_now=self._to_torch(
+                    X_val.tsc.shift_matrices(snapshot_orientation="row")[0]
+                ),
                 psi_now=self._to_torch(psi_now_aug),
                 psi_next=self._to_torch(psi_next_aug),
             )
-- 
2.43.0


From 2948119ac7ef2e7b5900fceaad0b16804848f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 137/140] fix: number of output features in dictionary learning

---
 datafold/dynfold/dictlearning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index 38d44c8..182b020 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -489,7 +489,10 @@ try:
             """
             self._validate_parameter()
 
-            self._setup_feature_attrs_fit(X, n_features_out=self.n_dict_elements)
+            n_features_out = self.n_dict_elements + 1  # +1 for the constant function
+            if self.include_id_state:
+                n_features_out += X.shape[1]
+            self._setup_feature_attrs_fit(X, n_features_out=n_features_out)
 
             (
                 X_val,
-- 
2.43.0


From fe9b621242cb2ce0dd9526f6ad743d1d8420fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 138/140] fix: infer the original state in a learned dictionary

---
 datafold/appfold/edmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 00ed5ce..1d7e1ca 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1048,6 +1048,7 @@ class EDMD(
         if self.is_dict_learning_:
             # apply final transformation based on trained dictionary
             X_dict = self.dmd_model.learning_model.transform(X_dict)
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
 
             # apply final dictionary transformation, adapt dictionary pipeline and
             # reset the identified DMD model
-- 
2.43.0


From 68c3cd53945cb06394b0e17e0d893999e5190b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 139/140] fix: fit or clone an EDMD model again after the
 dictionary was learned

---
 datafold/appfold/edmd.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 1d7e1ca..36317d9 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -317,6 +317,20 @@ class EDMD(
         # '_dmd_model' instead of general '_final_estimator'
         return self._final_estimator
 
+    def _is_dictionary_learned(self) -> bool:
+        # True if the steps contain the result of a previous fit with dictionary learning
+        learning_model = getattr(self, "_dict_learning_model", None)
+        return (
+            learning_model is not None and self.dmd_model is learning_model.dmd_model
+        )
+
+    def get_params(self, deep: bool = True):
+        params = super().get_params(deep=deep)
+        if self._is_dictionary_learned():
+            # the parameter and not the model that was identified during fit
+            params["dmd_model"] = self._dict_learning_model
+        return params
+
     @property
     def koopman_modes(self):
         check_is_fitted(self, attributes=["_koopman_modes"])
@@ -986,6 +1000,10 @@ class EDMD(
         else:
             self.is_partial_fit_ = False
 
+        if self._is_dictionary_learned():
+            # learn the dictionary for the new data
+            self.steps = self.steps[:-2] + [("dmd", self._dict_learning_model)]
+
         self.is_controlled_ = U is not None
         self.is_dict_learning_ = isinstance(self.dmd_model, DMDDictLearning)
 
@@ -1052,6 +1070,7 @@ class EDMD(
 
             # apply final dictionary transformation, adapt dictionary pipeline and
             # reset the identified DMD model
+            self._dict_learning_model = self.dmd_model
             self.steps = self.steps[:-1] + [
                 ("dict_learning", self.dmd_model.learning_model),
                 ("dmd", self.dmd_model.dmd_model),
-- 
2.43.0


From ef831323a46b5a8b953b4ef07c1c83e84a954620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 140/140] fix: raise error if the system type does not match
 the learned system matrix

---
 datafold/dynfold/dictlearning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index 182b020..7cb17e6 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -729,6 +729,12 @@ class DMDDictLearning(TSCTransformerMixin, TSCPredictMixin):
         DMDDictLearning
             fitted model
         """
+        if self.sys_type != self.learning_model.sys_type:
+            raise ValueError(
+                f"{self.sys_type=} does not match the system type of the learning model "
+                f"({self.learning_model.sys_type=})"
+            )
+
         self.learning_model = self.learning_model.fit(X, **fit_params)
 
         # TODO: this can be avoided, as it is only used to setup some standard attributes
-- 
2.43.0

