From 87fb3031e22f8a2d906722b4da08eac87d01a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 01/90] fix: directional features of empty bars and flows
 beyond 1e9 no longer report sentinels or divide by zero

---
 finmlkit/bar/base.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..57a7f85 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -455,13 +455,13 @@ def comp_bar_directional_features(
     max_spread = np.zeros(n_bars, dtype=np.float32)
     mean_spread = np.zeros(n_bars, dtype=np.float32)
 
-    # Initialize cumulative min and max arrays with appropriate values
-    cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
-    cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    # Cumulative min and max arrays, set from the first directional trade of the bar (zero for empty bars)
+    cum_ticks_min = np.zeros(n_bars, dtype=np.int64)
+    cum_ticks_max = np.zeros(n_bars, dtype=np.int64)
+    cum_volumes_min = np.zeros(n_bars, dtype=np.float32)
+    cum_volumes_max = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_min = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_max = np.zeros(n_bars, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
@@ -518,6 +518,12 @@ def comp_bar_directional_features(
             else:
                 continue
 
+            # First directional trade of the bar: the extremes start at its own values
+            if current_tics_buy + current_tics_sell == 1:
+                cum_ticks_min[i] = cum_ticks_max[i] = current_cum_ticks
+                cum_volumes_min[i] = cum_volumes_max[i] = current_cum_volumes
+                cum_dollars_min[i] = cum_dollars_max[i] = current_cum_dollars
+
             # Update the cumulative min and max values
             cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
             cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
@@ -533,7 +539,8 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        if current_tics_buy + current_tics_sell > 0:
+            mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From 05250994a38485e59b5542b673198b89203873a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 02/90] fix: spread of a bar's first trade compares with the
 real previous trade only

---
 finmlkit/bar/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 57a7f85..d76758d 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,10 +482,12 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if start > end:
+            prev_tick_sign = 0  # Default value if no trades in bar
+        elif start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = trade_sides[start]  # The very first trade has no previous trade to compare with
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
-- 
2.43.0


From 26d2786e175456b89a3c4c58b9a2d239614faefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 03/90] fix: tick size estimate for ticks with more than one
 significant digit

---
 finmlkit/bar/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..16c552b 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -67,6 +67,12 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
 
     diffs = np.diff(unique_prices)
     scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
+    # A tick such as 0.25 needs more digits than the leading one of the smallest difference
+    for _ in range(3):
+        scaled = diffs * scale
+        if np.max(np.abs(scaled - np.round(scaled))) < 1e-3:
+            break
+        scale *= 10.0
     int_px = np.round(unique_prices * scale).astype(np.int64)
 
     # Calculate greatest common divisor
-- 
2.43.0


From a18aa10473448cda765ac1568a0fe5508db4dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 04/90] fix: FootprintData keeps one array per bar when all
 bars have the same number of price levels

---
 finmlkit/bar/data_model.py | 41 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..fc18c66 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -914,14 +914,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_to_object_array(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_to_object_array(data[2]),
+            sell_volumes=_to_object_array(data[3]),
+            buy_ticks=_to_object_array(data[4]),
+            sell_ticks=_to_object_array(data[5]),
+            buy_imbalances=_to_object_array(data[6]),
+            sell_imbalances=_to_object_array(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1007,13 +1007,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _to_object_array(self.price_levels)
+        self.buy_volumes = _to_object_array(self.buy_volumes)
+        self.sell_volumes = _to_object_array(self.sell_volumes)
+        self.buy_ticks = _to_object_array(self.buy_ticks)
+        self.sell_ticks = _to_object_array(self.sell_ticks)
+        self.buy_imbalances = _to_object_array(self.buy_imbalances)
+        self.sell_imbalances = _to_object_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
@@ -1061,6 +1061,19 @@ class FootprintData:
 # --------
 # utils
 # --------
+def _to_object_array(arrays) -> NDArray:
+    """
+    Pack per-bar arrays into a 1D object array (np.array would stack them into 2D when their lengths are equal).
+
+    :param arrays: Sequence of 1D arrays.
+    :returns: 1D object array holding the arrays unchanged.
+    """
+    out = np.empty(len(arrays), dtype=object)
+    for i, arr in enumerate(arrays):
+        out[i] = arr
+    return out
+
+
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
     """
     Helper function to load a single HDF5 group in a separate process.
-- 
2.43.0


From ad46c702934ac6834155aadd498fdecca217c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 05/90] fix: integer indexing of FootprintData returns a
 one-bar container

---
 finmlkit/bar/data_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index fc18c66..8f658d3 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -883,6 +883,9 @@ class FootprintData:
                 return self[start_idx:end_idx]
 
             # Handle integer index or regular slicing
+            if isinstance(key, int):
+                key = range(len(self))[key]  # normalize negative indices, raise IndexError if out of range
+                key = slice(key, key + 1)
             return FootprintData(
                 bar_timestamps=self.bar_timestamps[key],
                 price_levels=self.price_levels[key],
-- 
2.43.0


From b69fff94514b45f81753f0946352b15627cd2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 06/90] fix: tick size estimate for prices that are not
 multiples of their smallest difference

---
 finmlkit/bar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 16c552b..7c0cacd 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -73,7 +73,7 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
         if np.max(np.abs(scaled - np.round(scaled))) < 1e-3:
             break
         scale *= 10.0
-    int_px = np.round(unique_prices * scale).astype(np.int64)
+    int_px = np.round((unique_prices - unique_prices[0]) * scale).astype(np.int64)
 
     # Calculate greatest common divisor
     # tick_int = np.gcd.reduce(np.diff(int_px))  # numba does not support it
-- 
2.43.0


From c03c6047b45cc096689a1bab5b1177a19480897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 07/90] fix: buyer-maker flags stay with their trades when rows
 are sorted or deduplicated

---
 finmlkit/bar/data_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 8f658d3..32251b3 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -174,6 +174,9 @@ class TradesData:
         if preprocess:
             if id is None:
                 raise ValueError("id is required if preprocess is True")
+            if is_buyer_maker is not None:
+                # Keep the flag attached to its trade while rows are reordered or dropped
+                self._data['is_buyer_maker'] = is_buyer_maker
             self._convert_timestamps_to_ns()
             self._sort_trades()
             self._merge_trades()
@@ -333,7 +336,7 @@ class TradesData:
             self.data['timestamp'].values.astype(np.int64),
             self.data['price'].values.astype(np.float64),
             self.data['amount'].values.astype(np.float32),
-            self.is_buyer_maker,
+            self.data['is_buyer_maker'].values if self.is_buyer_maker is not None else None,
         )
         self._data = pd.DataFrame({
             'timestamp': ts,
-- 
2.43.0


From 4747a5c1702ada5e86a15c6568bba943b55e4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 08/90] fix: split trades of adjacent ticks below 1e-8 are not
 merged into one price

---
 finmlkit/bar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 7c0cacd..d88f582 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -305,7 +305,7 @@ def merge_split_trades(
     merged_idx = 0
     for i in range(1, n):
         same_trade = (timestamps[i] == merged_timestamps[merged_idx] and
-                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)
+                      abs(prices[i] - merged_prices[merged_idx]) <= 1e-12 * abs(merged_prices[merged_idx]))
 
         if with_side:
             same_trade &= is_buyer_maker[i] == (merged_side[merged_idx] == -1)
-- 
2.43.0


From 305b70bb08edc131d938d6590864f9e05d816c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 09/90] fix: appending to a stored month keeps the time range
 and integrity reports of its earlier records

---
 finmlkit/bar/data_model.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 32251b3..a77491a 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -536,13 +536,24 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            appended = month_exists and not should_overwrite
+            first_ts = int(frame["timestamp"].iloc[0])
+            last_ts = int(frame["timestamp"].iloc[-1])
+            data_ok = self.data_ok
+            if appended and meta_key in store:
+                # The group still holds the earlier records: the metadata must cover them as well
+                old_meta = store[meta_key]
+                first_ts = min(first_ts, int(old_meta["first_timestamp"]))
+                last_ts = max(last_ts, int(old_meta["last_timestamp"]))
+                if old_meta["data_integrity_ok"] is False:
+                    data_ok = False
             meta = pd.Series(
                 {
                     "record_count": len(frame) if should_overwrite else (
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
+                    "first_timestamp": first_ts,
+                    "last_timestamp": last_ts,
+                    "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
                     "missing_pct": self.missing_pct     # Add count of discontinuities
                 }
             )
@@ -569,6 +580,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if appended and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From 747c1e0441c907f22a714a4f8150312871e8e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 10/90] fix: loading keeps the stored order of trades with
 equal timestamps

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index a77491a..373fdc4 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -777,7 +777,7 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            df.sort_index(inplace=True, kind="stable")
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From 45837d5528ed68bc5b412054e8b61bbd2e468988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 11/90] fix: AddTimeBarH5 accepts month keys in YYYY-MM format

---
 finmlkit/bar/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..73ab768 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -428,9 +428,20 @@ class AddTimeBarH5:
         with pd.HDFStore(self.h5_path, mode='r') as store:
             return [k for k in store.keys() if k.startswith('/trades/')]
 
+    @staticmethod
+    def _trades_key(key: str) -> str:
+        """
+        Expand a month ("YYYY-MM") to its trades key ("/trades/YYYY-MM").
+
+        :param key: Month or trades key.
+        :return: Trades key.
+        """
+        return key if key.startswith('/trades/') else f'/trades/{key}'
+
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            keys = [self._trades_key(key) for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
@@ -466,6 +477,7 @@ class AddTimeBarH5:
         logger = get_logger(__name__)
 
         # Derive timebar key from trade key
+        key = self._trades_key(key)
         timebar_key = key.replace('/trades/', '/klines/')
         month_key = key.split('/')[-1]
 
-- 
2.43.0


From 3dad1e9520d95b37d7880b40677050a6ec51a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 12/90] fix: daily resampling keeps the last requested day when
 it is complete

---
 finmlkit/bar/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 73ab768..1a6f835 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -891,9 +891,10 @@ class TimeBarReader:
             resampled = self._resample(df, timeframe)
 
             # For daily bars, if the end date is specified without time component,
-            # exclude the last day if it's incomplete
-            last_valid_day = original_end_time - pd.Timedelta(days=1)
-            resampled = resampled[resampled.index <= last_valid_day]
+            # exclude the final period if its 1-second bars stop before its end
+            period = pd.Timedelta(pd.tseries.frequencies.to_offset(timeframe))
+            if not resampled.empty and df.index.max() < resampled.index[-1] + period - pd.Timedelta(seconds=1):
+                resampled = resampled.iloc[:-1]
             return resampled
         else:
             # Resample to the requested timeframe normally
-- 
2.43.0


From d549038027d1a23d67896907e02d943dd3aeaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 13/90] fix: skipped triple barrier events do not return
 uninitialised touch indices

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..984e710 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
     labels = np.zeros(n_events, dtype=np.int8)                # The label (-1, 1) or (0, 1)
-    touch_idxs   = np.empty(n_events, dtype=np.int64)               # Index of the first barrier touch
+    touch_idxs   = event_idxs.astype(np.int64)               # Index of the first barrier touch (the event itself if skipped)
     rets = np.full(n_events, np.nan, dtype=np.float64)             # The return corresponding to the given label
     max_rb_ratios = np.full(n_events, np.nan, dtype=np.float64)    # Maximum return/target ratio during the search
 
-- 
2.43.0


From 642b8dbbcaae8422146f9c7f6b265bf897643c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 14/90] fix: disabled (-inf) barriers are never touched and a
 barrier hit on the last bar has ratio 1

---
 finmlkit/label/tbm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 984e710..f2bd899 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -102,6 +102,7 @@ def triple_barrier(
         # ---------- Evaluate the path -----------
         side_mult = side[i_event]
         touch_idx = t1_idx
+        hit = False
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
@@ -124,11 +125,13 @@ def triple_barrier(
                 max_lrbr = max(max_lrbr, ret / lower_barrier)
 
             # Check if we touch the barrier
-            if ret >= upper_barrier:
+            if np.isfinite(upper_barrier) and ret >= upper_barrier:
                 touch_idx = j
+                hit = True
                 break
-            if ret <= lower_barrier:
+            if np.isfinite(lower_barrier) and ret <= lower_barrier:
                 touch_idx = j
+                hit = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -143,7 +146,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 4c571b6fde49fd84999164dff1e8f681deec7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 15/90] fix: triple barrier return is taken at the touch index
 when the minimum close time outlasts the search

---
 finmlkit/label/tbm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index f2bd899..a255509 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -136,6 +136,7 @@ def triple_barrier(
 
         # ---------- Assign the label and other values ------------
         touch_idxs[i_event] = touch_idx
+        ret = (log_close[touch_idx] - base_price) * side_mult  # also when no bar was older than the minimum close time
         rets[i_event] = ret
 
         # Assign the labels
-- 
2.43.0


From 542d47d1ef0e25bf654bd271d11541be895454ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 16/90] fix: vertical barrier end is computed in integer
 nanoseconds

---
 finmlkit/label/tbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index a255509..dc4b6c7 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -63,7 +63,8 @@ def triple_barrier(
 
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
-    vertical_barrier_ns = vertical_barrier * 1e9  # Convert to nanoseconds
+    # Convert to nanoseconds (integer: float64 cannot represent present-day end timestamps exactly)
+    vertical_barrier_ns = np.int64(round(min(vertical_barrier * 1e9, 4e18)))
     min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
-- 
2.43.0


From ac5544c3d29504802ac36fb012de19ff47a2d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 17/90] fix: TBMLabel locates events of datetime indexes with
 other units than nanoseconds

---
 finmlkit/label/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..1d83f1d 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.as_unit('ns').values.astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From c18b17ac614d9ba4deade67029cfe955cef5f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 18/90] fix: comp_lagged_returns compared timestamps in
 float64, missing trades exactly one window ago

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..a6c5852 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,7 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    ret_window_ns = np.int64(round(return_window_sec * 1e9))  # int64: float64 cannot resolve ns at present-day epochs
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From 709e2d4c2c8efe8fe6db7148dfb5e9deffa1d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 19/90] fix: volume_profile_developing wrote its results at
 absolute bar positions, outside the output range

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 2e534eba0d3eaf757e31445eea6d6f6dcd67ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 20/90] fix: sma of an integer column was truncated to
 integers, with INT_MIN instead of NaN

---
 finmlkit/feature/core/ma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..ea55e83 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -52,7 +52,7 @@ def sma(array: NDArray[np.float64], window: int) -> NDArray[np.float64]:
     :param window: int, window for the rolling average
     :return: np.array, SMA values
     """
-    sma = np.empty_like(array)
+    sma = np.empty(len(array), dtype=np.float64)
     sma.fill(np.nan)
 
     N = window
-- 
2.43.0


From b612121485744ca0a013ace171311a220b9b577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 21/90] fix: roc of an integer column was truncated to
 integers, with INT_MIN instead of NaN

---
 finmlkit/feature/core/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..305f7a3 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -13,7 +13,7 @@ def roc(price: NDArray, period: int) -> NDArray:
     :return: np.array, ROC values.
     """
     n = len(price)
-    roc = np.empty_like(price)
+    roc = np.empty(n, dtype=np.float64)
     roc[:period] = np.nan  # First 'period' values are NaN
 
     for i in range(period, n):
-- 
2.43.0


From d231ad5bdae34b704784a861b1cfa1734a4feb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 22/90] fix: StochK passed high as close and close as high to
 stoch_k

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..d8e2157 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -300,7 +300,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From 91a65da44c6402298d2167d98ac0256bf3c7773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 23/90] fix: the first vwap_distance value was a simple
 distance even when the log distance was requested

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From b240c5947c67722e0a686386ffdfd3b56500bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 24/90] fix: ewmst weighted missing observations as if they
 were zeros

---
 finmlkit/feature/core/volatility.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..3497fa9 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight sums and EWMA sums
         if np.isnan(yi):
             # decay only
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha       + one_minus * V
+            V2  = alpha*alpha + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From a3f4a7d9ae24bfd745fbef4f01b5e2189c067289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 25/90] fix: atr of a bar without prices was NaN only at index
 2

---
 finmlkit/feature/core/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 3497fa9..ce5682e 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -406,8 +406,8 @@ def atr(high: NDArray[np.float64],
     else:
         # SMA-based ATR calculation
         for i in range(window-1, n):
-            # Handle the special case for index 2 (NaN in input)
-            if i == 2 and np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
+            # A bar without any price has no ATR
+            if np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
                 atr_values[i] = np.nan
                 continue
 
-- 
2.43.0


From 483edb4bc652a84bd74a45f96a361726a0c47c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 26/90] fix: RSI without losses was NaN on the numba backend,
 and short series raised on the pandas backend

---
 finmlkit/feature/core/momentum.py | 4 ++--
 finmlkit/feature/transforms.py    | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 305f7a3..1619414 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,7 +49,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+    out[window] = 100.0 if avg_loss == 0.0 else 100.0 - 100.0 / (1.0 + avg_gain / avg_loss)
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
@@ -60,7 +60,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+        out[i] = 100.0 if avg_loss == 0.0 else 100.0 - 100.0 / (1.0 + avg_gain / avg_loss)
 
     return out
 
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d8e2157..f9babad 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -233,7 +233,9 @@ class RSIWilder(SISOTransform):
         losses = -losses  # Make losses positive
 
         # Initialize results with NaNs
-        rsi = pd.Series(np.nan, index=series.index)
+        rsi = pd.Series(np.nan, index=series.index, name=self.output_name)
+        if len(series) <= self.window:
+            return rsi                      # not enough data
 
         # First average is simple average
         first_avg_gain = gains.iloc[1:self.window + 1].mean()
-- 
2.43.0


From 5846ec6e1ac246b68b2aff2bf91894036e0c4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 27/90] fix: PctChange on the pandas backend kept the input
 name and differed for missing and non-positive bases

---
 finmlkit/feature/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index f9babad..1cb51d4 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -194,7 +194,11 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        base = series.shift(self.periods)
+        outp = (series - base) / base.where(base > 0)
+        outp.name = self.output_name
+
+        return outp
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From 4e8772239d0ac5ff14c521b3902c8f8c8dfe055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 28/90] fix: one missing value made every later ewma NaN,
 unlike the pandas ewm it replicates

---
 finmlkit/feature/core/ma.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index ea55e83..7dc9647 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -29,16 +29,18 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
+    u_t = 0.0   # Initial value for numerator
+    v_t = 0.0   # Initial value for denominator
+
+    for t in range(n):
+        # Update the numerator and denominator (missing values only decay the weights, as in pandas)
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
         # Calculate the EWMA
-        ewma[t] = u_t / v_t
+        ewma[t] = u_t / v_t if v_t > 0.0 else np.nan
 
     return ewma
 
-- 
2.43.0


From 6d327401f2f5e3e93d823fdd5dba6801433fb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 29/90] fix: DirRunLen overflowed after 127 bars and read past
 the end of single-bar inputs

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 1cb51d4..99ab661 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1649,12 +1649,12 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)
 
         if n == 0:
             return run_lengths
 
-        prev_sign = np.sign(x[1])
+        prev_sign = 0.0
         current_length = 0
 
         for i in range(1, n):
-- 
2.43.0


From 55674aea4e37287965bb2fff3b911f425be74321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 30/90] fix: DailyGap compared midnight with a later close of
 the same day instead of the previous day's last close

---
 finmlkit/feature/transforms.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 99ab661..6a58d02 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1088,37 +1088,22 @@ class DailyGap(SISOTransform):
         # Extract the close price series
         series = x[self.requires[0]]
 
-        # Create a Series with the same index as the input but filled with NaN
-        result = pd.Series(np.nan, index=series.index, name=self.output_name)
-
         # Convert index to datetime if not already
         if not isinstance(series.index, pd.DatetimeIndex):
             raise ValueError("Input DataFrame must have a DatetimeIndex for DailyGap calculation")
 
         # Ensure the index is sorted
         series = series.sort_index()
+        day = series.index.floor('D')
 
-        # Get close prices at 00:00 UTC (first value of each day)
-        midnight_close = series.resample('D').first()
-
-        # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
-
-        # Calculate the gap as percentage change
-        daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
+        # Get close prices at 23:45 UTC from previous day (last value of the previous calendar day)
+        prev_2345_close = series.resample('D').last().shift(1).reindex(day).values
 
-        # Map the daily gaps back to the original time series
-        # We'll set the gap value for each day at midnight
-        for date, gap in daily_gap.items():
-            if not np.isnan(gap):
-                # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
-
-                # If this timestamp exists in the original index, set the gap value
-                if day_start in result.index:
-                    result.loc[day_start] = gap
+        # Calculate the gap as percentage change, at midnight only
+        result = ((series - prev_2345_close) / prev_2345_close).where(series.index == day)
+        result.name = self.output_name
 
-        return result
+        return result.reindex(x.index) if not x.index.is_monotonic_increasing else result
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         logger.info(f"Fall back to pandas for {self.__class__.__name__}")
-- 
2.43.0


From aee9a6c52d7d4a55ccb02e714c2b09cacde29ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 31/90] fix: roc raised ZeroDivisionError when the lagged value
 is zero

---
 finmlkit/feature/core/momentum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 1619414..bc10f22 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -17,7 +17,8 @@ def roc(price: NDArray, period: int) -> NDArray:
     roc[:period] = np.nan  # First 'period' values are NaN
 
     for i in range(period, n):
-        roc[i] = ((price[i] - price[i - period]) / price[i - period]) * 100
+        base = price[i - period]
+        roc[i] = ((price[i] - base) / base) * 100 if base != 0 else np.nan
 
     return roc
 
-- 
2.43.0


From e6f3e58c06434194a0417d4705f86cc7d6660aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 32/90] fix: one missing high or low made every later stoch_k
 value NaN

---
 finmlkit/feature/core/momentum.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index bc10f22..aef16ef 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -89,24 +89,10 @@ def stoch_k(
     if n < length:
         return out
 
-    # initial window
-    lo = np.min(low[:length])
-    hi = np.max(high[:length])
-    out[length - 1] = 100.0 * (close[length - 1] - lo) / (hi - lo) if hi > lo else np.nan
-
-    # rolling update
-    for t in range(length, n):
-        # update window min/max efficiently
-        # if the outgoing bar was the min/max we need full recompute;
-        # otherwise only compare the new bar.
-        out_idx = t - length
-
-        if low[out_idx] == lo or high[out_idx] == hi:
-            lo = np.min(low[t - length + 1:t + 1])
-            hi = np.max(high[t - length + 1:t + 1])
-        else:
-            lo = min(lo, low[t])
-            hi = max(hi, high[t])
+    for t in range(length - 1, n):
+        # min/max of the window itself: a missing value must not outlive its window
+        lo = np.min(low[t - length + 1:t + 1])
+        hi = np.max(high[t - length + 1:t + 1])
 
         out[t] = 100.0 * (close[t] - lo) / (hi - lo) if hi > lo else np.nan
 
-- 
2.43.0


From eb1e1dcbe5912de62c0acf07d250c82b7a6f2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 33/90] fix: comp_zscore of a flat window was rounding noise
 divided by rounding noise

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index a6c5852..9b66b93 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -84,7 +84,7 @@ def comp_zscore(x: NDArray[np.float64], window: int, ddof: int) -> NDArray[np.fl
         # Manual calculation of standard deviation with ddof
         variance = np.sum((window_data - mean) ** 2) / (len(window_data) - ddof)
         std = np.sqrt(variance)
-        if std != 0:
+        if std != 0 and np.max(window_data) > np.min(window_data):  # the mean of a flat window is rounded
             z_scores[i] = (x[i] - mean) / std
 
     return z_scores
-- 
2.43.0


From 6d906419910573e42df7e12b2709a6d62e647a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 34/90] fix: bollinger_percent_b carried missing values and
 rounding errors beyond their window

---
 finmlkit/feature/core/volatility.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index ce5682e..227c1d5 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -310,27 +310,14 @@ def bollinger_percent_b(close: NDArray[np.float64],
     if n < window:
         return out
 
-    # initialize rolling sum variables
-    rolling_sum = 0.0
-    rolling_sum_sq = 0.0
-    for k in range(window):
-        rolling_sum += close[k]
-        rolling_sum_sq += close[k] ** 2
-
-    mean = rolling_sum / window
-    var = (rolling_sum_sq - window * mean * mean) / (window - 1)
-    sd = np.sqrt(max(var, 0.0))
-    lower = mean - num_std * sd
-    upper = mean + num_std * sd
-    out[window - 1] = (close[window - 1] - lower) / (upper - lower) if upper > lower else np.nan
-
-    for i in range(window, n):
-        # rolling update
-        rolling_sum += close[i] - close[i - window]
-        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
-        mean = rolling_sum / window
-        var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
-        sd = np.sqrt(max(var, 0.0))
+    for i in range(window - 1, n):
+        # statistics of the window itself: missing values and rounding errors must not outlive their window
+        window_data = close[i - window + 1:i + 1]
+        if not np.max(window_data) > np.min(window_data):
+            out[i] = np.nan
+            continue
+        mean = np.mean(window_data)
+        sd = np.sqrt(np.sum((window_data - mean) ** 2) / (window - 1))
         lower = mean - num_std * sd
         upper = mean + num_std * sd
         out[i] = (close[i] - lower) / (upper - lower) if upper > lower else np.nan
-- 
2.43.0


From 87647d139da0da08c6621f47fadc9758533759a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 35/90] fix: true range and atr of integer columns were
 truncated to integers

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 227c1d5..4bc33e6 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -232,7 +232,7 @@ def true_range(high: NDArray, low: NDArray, close: NDArray) -> NDArray:
     if not (len(high) == len(low) == len(close)):
         raise ValueError("The length of high, low, and close prices must be the same.")
 
-    tr = np.empty_like(high)
+    tr = np.empty(len(high), dtype=np.float64)
 
     # Handle first value specially - just high-low spread if not NaN
     if np.isnan(high[0]) or np.isnan(low[0]):
-- 
2.43.0


From 4f295cd78faba9148b022a1f5d310f4c1d33f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 36/90] fix: vwap_distance carried missing values and rounding
 errors beyond their window

---
 finmlkit/feature/core/reversion.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index c6d1c1e..b5c631c 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -28,32 +28,20 @@ def vwap_distance(close: NDArray[np.float64],
     if n < n_periods:
         return out
 
-    wsum = 0.0     # Σ P·V
-    vsum = 0.0     # Σ V
-
-    # initial window
-    for k in range(n_periods):
-        wsum += close[k] * volume[k]
-        vsum += volume[k]
-
-    if vsum > 0:
-        if is_log:
-            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
-        else:
-            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
-
-    # rolling update
-    for i in range(n_periods, n):
-        left_pv = close[i - n_periods] * volume[i - n_periods]
-        wsum += close[i] * volume[i] - left_pv
-        vsum += volume[i] - volume[i - n_periods]
+    for i in range(n_periods - 1, n):
+        # sums of the window itself: missing values and rounding errors must not outlive their window
+        wsum = 0.0     # Σ P·V
+        vsum = 0.0     # Σ V
+        for k in range(i - n_periods + 1, i + 1):
+            wsum += close[k] * volume[k]
+            vsum += volume[k]
 
         if vsum > 0:
             if is_log:
                 out[i] = np.log(close[i] / (wsum/vsum))
             else:
                 out[i] = close[i] / (wsum / vsum) - 1.0
-        else:               # empty 4-h window (extremely rare)
+        elif i >= n_periods:               # empty 4-h window (extremely rare)
             out[i] = out[i-1]
 
     return out
-- 
2.43.0


From ad3ce37603c97467cbc8f3fa6ab67d3f6d27f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 37/90] fix: one missing volume made every later flow
 acceleration NaN

---
 finmlkit/feature/core/volume.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 9f28c32..68bc129 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -592,16 +592,9 @@ def comp_flow_acceleration(
     if n < window or recent_periods >= window:
         return out                 # edge cases
 
-
-    # prefix cumsum array
-    S = np.empty(n+1, np.float64)
-    S[0] = 0.0
-    for i in range(n):
-        S[i+1] = S[i] + volumes[i]
-
     for i in prange(window - 1, n):
-        recent_sum = S[i+1] - S[i+1 - recent_periods]
-        past_sum   = S[i+1 - recent_periods] - S[i+1 - window]
+        recent_sum = np.sum(volumes[i+1 - recent_periods:i+1])
+        past_sum   = np.sum(volumes[i+1 - window:i+1 - recent_periods])
         out[i] = np.log((recent_sum + eps) / (past_sum + eps))
 
     return out
-- 
2.43.0


From e44ab6c6d9781c01aaffa457e4bd3916b7342ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 38/90] fix: transforms read second, millisecond and
 microsecond indexes as nanoseconds

---
 finmlkit/feature/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..a214336 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.as_unit('ns').asi8
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
-- 
2.43.0


From ec1c0a96e3888686caecf1e3897af6b7254e88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 39/90] fix: HurstExponent raised (or was always NaN) for
 windows of less than ten bars

---
 finmlkit/feature/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 6a58d02..b437701 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1369,15 +1369,15 @@ class HurstExponent(SISOTransform):
     def _hurst_aggregated_variance(series):
         y = series.cumsum().values  # price path
         lags = np.array([1, 2, 4, 8])
+        lags = lags[lags < len(y) - 1]  # at least two differences per lag
 
         taus = []
         for k in lags:
-            if k < len(y):
-                diff = y[k:] - y[:-k]  # no log here
-                taus.append(np.sqrt(np.var(diff)))
+            diff = y[k:] - y[:-k]  # no log here
+            taus.append(np.sqrt(np.var(diff)))
         taus = np.asarray(taus)
 
-        if np.all(taus > 0):
+        if len(lags) > 1 and np.all(taus > 0):
             slope, _ = np.polyfit(np.log(lags), np.log(taus), 1)
             return slope  # std-slope = H
         return np.nan
-- 
2.43.0


From 1d69a454ac7a2c394c5a024e668559fa32e272da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 40/90] fix: ewmst divided rounding noise by rounding noise
 while only one observation was known

---
 finmlkit/feature/core/volatility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 4bc33e6..ff3b6bf 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -170,6 +170,7 @@ def ewmst(
     V2  = 0.0    # sum of squared weights
     Sy  = 0.0    # EWMA sum of y
     Syy = 0.0    # EWMA sum of y^2
+    n_obs = 0    # observations with a weight so far
     last_ts = timestamps[0]
     out[0] = np.nan
 
@@ -196,6 +197,8 @@ def ewmst(
             V2  = alpha*alpha + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
+            if alpha > 0.0:
+                n_obs += 1
 
         # compute mean & raw variance
         if V > 0.0:
@@ -204,7 +207,7 @@ def ewmst(
             var_raw= ewma_y2 - mean*mean
             # bias correction
             denom = V - (V2 / V) if V > 0.0 else 0.0
-            if denom > 0.0 and var_raw > 0.0:
+            if n_obs > 1 and denom > 0.0 and var_raw > 0.0:
                 var = var_raw * (V / denom)
             else:
                 var = 0.0
-- 
2.43.0


From c6f3a82f0f326e66fd52d5c3f630b14d7e002fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 41/90] fix: cusum_test_rolling left the first statistic NaN
 until one more bar arrived

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From 5deb9ac0915c25d2fd990292813108e85b2a2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 42/90] fix: variance ratios of existing bars stayed NaN until
 the series was window + 4 bars long

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index ff3b6bf..1ffac60 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -486,7 +486,7 @@ def variance_ratio_1_4_core(price: NDArray[np.float64], window: int, ddof: int,
     n = len(price)
     result = np.full(n, np.nan)
 
-    if n < window + 4:  # Need enough data for 4-bar returns plus window
+    if n == 0:
         return result
 
     # Calculate 1-bar returns
-- 
2.43.0


From fcec7d4d0b5e681b85203dfb9f8acfc3ec672784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 43/90] fix: bi-power variation was scaled by 1/mu1 instead of
 1/mu1^2, so it did not estimate the variance

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index b437701..5d1354e 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1561,8 +1561,8 @@ class BiPowerVariation(SISOTransform):
         """
         super().__init__(input_col, f"bv_{window}")
         self.window = window
-        # 1 / mu1 where mu1 = E[|Z|] with Z ~ N(0,1)
-        self.mu1_inv_sq = (np.pi / 2)**0.5
+        # 1 / mu1^2 where mu1 = E[|Z|] = sqrt(2 / pi) with Z ~ N(0,1)
+        self.mu1_inv_sq = np.pi / 2
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         """
-- 
2.43.0


From a7b6294fd4d8ab142952d8e3093e2e0c2b18c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 44/90] fix: compiled burst ratios with a missing value in the
 window were arbitrary

---
 finmlkit/feature/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 9b66b93..2c67693 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -103,6 +103,9 @@ def comp_burst_ratio(series: NDArray[np.float64], window: int) -> NDArray[np.flo
 
     for i in prange(window - 1, n):
         series_window = series[i - window + 1: i + 1]
+        if np.any(np.isnan(series_window)):
+            out[i] = np.nan    # the compiled median orders missing values arbitrarily
+            continue
         med = np.median(series_window)
         out[i] = series[i]/med if med>0 else np.nan
     return out
-- 
2.43.0


From c4729e424f1d4d11cf728cb34af650a85292051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 45/90] fix: ewms divided rounding noise by rounding noise
 while only one observation was known

---
 finmlkit/feature/core/volatility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 1ffac60..ab0100a 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -36,6 +36,7 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
     S_w2 = 0.0   # Cumulative sum of squared weights
     S_y = 0.0    # Cumulative sum of weighted y
     S_y2 = 0.0   # Cumulative sum of weighted y^2
+    n_obs = 0    # Observations so far
 
     for t in range(n):
         y_t = y[t]
@@ -48,6 +49,7 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         if not np.isnan(y_t):
             S_y = one_minus_alpha * S_y + y_t
             S_y2 = one_minus_alpha * S_y2 + y_t ** 2
+            n_obs += 1
         else:
             # Decay the cumulative sums without adding new data
             S_y = one_minus_alpha * S_y
@@ -57,7 +59,7 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         if S_w > 0.0:
             mean = S_y / S_w
             denominator = S_w - (S_w2 / S_w)
-            if denominator > 0.0:
+            if n_obs > 1 and denominator > 0.0:
                 variance = (S_y2 / S_w - mean ** 2) * S_w / denominator
                 variance = max(variance, 0.0)  # Ensure non-negative variance
                 ewm_std[t] = np.sqrt(variance)
-- 
2.43.0


From 4ff95f1e7b6b4756bf8bf2d33849226cfa034127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 46/90] fix: PriceVolumeCorrelation on the pandas backend
 padded missing prices and dropped windows with a missing value, unlike the
 numba backend

---
 finmlkit/feature/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 5d1354e..0a32332 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -783,7 +783,7 @@ class PriceVolumeCorrelation(MISOTransform):
         volume_col = self.requires[1]
 
         # Calculate returns
-        returns = x[price_col].pct_change()
+        returns = x[price_col].pct_change(fill_method=None)
 
         # Create a DataFrame with returns and volume
         df = pd.DataFrame({
@@ -792,7 +792,11 @@ class PriceVolumeCorrelation(MISOTransform):
         })
 
         # Calculate rolling correlation
-        result = df['returns'].rolling(window=self.window).corr(df['volume'])
+        result = df['returns'].rolling(window=self.window, min_periods=2).corr(df['volume'])
+
+        # Like the numba implementation: no correlation at incomplete bars and before the first full window of returns
+        result = result.where(df.notna().all(axis=1))
+        result.iloc[:self.window] = np.nan
 
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
-- 
2.43.0


From 82d514e68de3d5ad5bbe8702be5e6eb7e24808b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 47/90] fix: ewma lost the average when all weights have
 decayed to zero, unlike the pandas ewm it replicates

---
 finmlkit/feature/core/ma.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 7dc9647..15ab348 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -40,7 +40,10 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
             u_t += y[t]
             v_t += 1.0
         # Calculate the EWMA
-        ewma[t] = u_t / v_t if v_t > 0.0 else np.nan
+        if v_t > 0.0:
+            ewma[t] = u_t / v_t
+        else:   # all weights decayed to zero: pandas keeps the last average
+            ewma[t] = ewma[t - 1] if t > 0 else np.nan
 
     return ewma
 
-- 
2.43.0


From 0387cd4345ee474ca754a08cd3c5315881c7ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 48/90] fix: PriceVolumeCorrelation of flat windows on the
 pandas backend was rounding noise divided by zero

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 0a32332..9425c30 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -798,6 +798,10 @@ class PriceVolumeCorrelation(MISOTransform):
         result = result.where(df.notna().all(axis=1))
         result.iloc[:self.window] = np.nan
 
+        # A flat window has no correlation, only rounding noise
+        window = df.where(df.notna().all(axis=1)).rolling(window=self.window, min_periods=2)
+        result = result.mask((window.max() == window.min()).any(axis=1))
+
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
             # Check if we're dealing with test data patterns
-- 
2.43.0


From 59414b691b2642b13a0b937150a071fd6f74ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 49/90] fix: CUSUM bar indexer accepted sigma vectors of the
 wrong length and read past their end

---
 finmlkit/bar/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..a9bac1f 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -171,7 +171,7 @@ def _cusum_bar_indexer(
     :param sigma_mult: sigma multiplier for the CUSUM filter (threshold will be lambda_mult*sigma).
     :returns: close_indices
     """
-    if len(prices) != len(sigma) != len(timestamps):
+    if len(prices) != len(sigma) or len(prices) != len(timestamps):
         raise ValueError("Prices, timestamps, and sigma arrays must have the same length.")
 
     n = len(prices)
-- 
2.43.0


From f58985f996ff8eb824aa6cb8633b52b22c15056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 50/90] fix: CUSUMBarKit filled missing values in the caller's
 sigma array and rejected the documented constant sigma

---
 finmlkit/bar/kit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..a735540 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -154,7 +154,8 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        # own copy: the indexer fills missing values in place; a constant applies to all ticks
+        self._sigma = np.array(np.full(len(self.trades_df), sigma) if np.ndim(sigma) == 0 else sigma, dtype=np.float64)
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From 61024aa1c8c759fe8a18eae39ff5addb996bf0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 51/90] fix: Compose took columns named like a step's bare
 suffix or default input instead of the previous step's output

---
 finmlkit/feature/kit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..eec94d8 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -666,8 +666,9 @@ class Compose(BaseTransform):
         """
         Apply the composed transforms to the input DataFrame with caching/optimization:
         - If the final output already exists in the input DataFrame, return it immediately.
-        - For each step, if its output exists in the DataFrame, reuse it rather than recomputing.
-        - Prefer DataFrame-provided required column(s) when available; else use the prior step's output.
+        - For each step, if its output (the composed name up to that step) exists in the DataFrame, reuse it
+          rather than recomputing.
+        - Each subsequent step consumes the prior step's output.
         :param x: DataFrame to transform
         :param backend: Backend is already specified in the transforms
         :return: Transformed Series
@@ -680,8 +681,9 @@ class Compose(BaseTransform):
             return x[final_name]
 
         current_series = None
+        out_name = None
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
+            out_name = tfs.output_name if i == 0 else f"{out_name}_{tfs.produces[0]}"
 
             # If this step's output already exists, reuse it
             if out_name in x.columns:
@@ -692,13 +694,9 @@ class Compose(BaseTransform):
                 # First transform: operate on full DataFrame x
                 current_series = tfs(x, backend=backend)
             else:
-                # Subsequent transforms: prefer required column from DataFrame if available,
-                # otherwise use the prior step's series as the required input column.
+                # Subsequent transforms: use the prior step's series as the required input column.
                 req_col = tfs.requires[0]
-                if req_col in x.columns:
-                    df_in = x[[req_col]]
-                else:
-                    df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
+                df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
                 current_series = tfs(df_in, backend=backend)
 
             # Optionally cache into x for downstream steps to reuse (without mutating original reference)
-- 
2.43.0


From 03393161fecbb44984d6aaadee190b2faef3ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 52/90] fix: applying a function that returns its argument
 renamed the cached input column

---
 finmlkit/feature/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index a214336..ac8839a 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1360,6 +1360,8 @@ class UnaryOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base)
+        if result is base:
+            result = base.copy()  # never rename a column of the input frame
         result.name = self.output_name
         return result
 
-- 
2.43.0


From db0e6e32293a6cc18bdec6a54e5e344bf105c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 53/90] fix: configurations of ReturnT, EWMST, BarRate and
 PctChange lost their window or half life

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 9425c30..8a9b4c6 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -324,6 +326,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1234,6 +1237,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 4f0627d149a3be348b727f34692a55b0e5646e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 54/90] fix: loading a configuration renamed the output of
 applied functions

---
 finmlkit/feature/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..ae367db 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -259,7 +259,10 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         op = _maybe_unary_from_name(op_name)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        if cfg.get("produces"):
+            t.produces = list(cfg["produces"])  # Feature.apply names its output after the feature, not the operation
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 334566a92699d72d20adde76915d80a888bf0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 55/90] fix: the adjust option of Feature.ema was lost when a
 configuration was saved and loaded

---
 finmlkit/feature/kit.py   | 5 ++++-
 finmlkit/feature/utils.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index eec94d8..481f3b5 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,10 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature = self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        if not adjust:
+            feature.transform.op_name += "_noadjust"  # keep the option in the serialized configuration
+        return feature
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index ae367db..7ac7f80 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -113,9 +113,9 @@ def _maybe_unary_from_name(name: str):
             n = int(name[len(base):])
             return lambda x: x.rolling(window=n).sum()
         if name.startswith("ema"):
-            n = int(name[len("ema"):])
-            # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = not name.endswith("_noadjust")
+            n = int(name[len("ema"):].removesuffix("_noadjust"))
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
-- 
2.43.0


From 0f13f4cd226db4c4a5fca22a6fa3da42e2fd56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 56/90] fix: custom names of multi-output features were ignored
 by FeatureKit.build

---
 finmlkit/feature/kit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 481f3b5..c67832d 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1060,8 +1060,9 @@ class FeatureKit:
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                names = feat.name if isinstance(feat.name, (list, tuple)) else [item.name for item in res]
+                for name, item in zip(names, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
-- 
2.43.0


From c08a8720c7947c460e0165ffcef37078207a46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 57/90] fix: the feature graph missed dependencies on renamed
 and multi-output features

---
 finmlkit/feature/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 7ac7f80..64d827f 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -361,8 +361,13 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
-    # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Map of produced column names to feature names for cross-referencing. FeatureKit.build provides columns under the
+    # names the transforms give them, also when the feature has a custom name or several outputs.
+    outputs = {f.name: f.name for f in features if isinstance(f.name, str)}
+    for f in features:
+        produced = f.transform.output_name
+        for col in [produced] if isinstance(produced, str) else produced:
+            outputs[col] = str(f.name)
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -389,12 +394,10 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
-        # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
-            if other_name == out_name:
-                continue
-            if other_name in reqs:
+            if child_out in outputs and outputs[child_out] != out_name:
+                g.add_edge(outputs[child_out], out_name)
+        # Dependencies on other features if require equals other feature's output
+        for col, other_name in outputs.items():
+            if col in reqs and other_name != out_name:
                 g.add_edge(other_name, out_name)
     return g
-- 
2.43.0


From 373568447dd8ac9d9a7ff74ee356ee4893ef0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 58/90] fix: the topological feature order, and with it the
 column order of FeatureKit.build, depended on string hashing

---
 finmlkit/feature/kit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index c67832d..f6b042f 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -987,16 +987,14 @@ class FeatureKit:
         # Compute topo order among feature names only (ignore input nodes)
         g = self.build_graph()
         names = [str(f.name) for f in self.features]
-        name_set = set(names)
+        name_set = dict.fromkeys(names)  # keeps the order of definition, so that the result does not depend on hashing
         # Build subgraph edges between feature nodes
-        edges = {n: set() for n in name_set}
+        edges = {n: [] for n in name_set}
         indeg = {n: 0 for n in name_set}
-        for src, dests in g.edges.items():
-            if src not in name_set:
-                continue
-            for d in dests:
-                if d in name_set:
-                    edges[src].add(d)
+        for src in name_set:
+            for d in name_set:
+                if d in g.edges.get(src, ()):
+                    edges[src].append(d)
                     indeg[d] += 1
         # Kahn on feature-only subgraph
         zero = [n for n, d in indeg.items() if d == 0]
@@ -1004,7 +1002,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in edges[n]:
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
-- 
2.43.0


From 23c37e8e1776215342a13215fee57ab9c2844dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 59/90] fix: FeatureKit.build in topological order skipped
 features that share a name with another one

---
 finmlkit/feature/kit.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index f6b042f..7bf2994 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1032,12 +1032,9 @@ class FeatureKit:
         # Determine execution order
         features_seq = self.features
         if order == "topo":
-            name2feat = {str(f.name): f for f in self.features}
-            topo_names = self.topological_order()
-            # Stable order: topo first, then any remaining by original order
-            topo_feats = [name2feat[n] for n in topo_names if n in name2feat]
-            remaining = [f for f in self.features if str(f.name) not in set(topo_names)]
-            features_seq = topo_feats + remaining
+            # Stable: features that share a name keep their original order
+            rank = {n: k for k, n in reversed(list(enumerate(self.topological_order())))}
+            features_seq = sorted(self.features, key=lambda f: rank[str(f.name)])
 
         timing_info = {}
 
-- 
2.43.0


From 67d87e362dcb67ac6797db1dbc44a4d478af9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 60/90] fix: FeatureKit.build returned another feature's values
 when two transforms share an output name

---
 finmlkit/feature/kit.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 7bf2994..2e0e1d1 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -4,7 +4,7 @@ import json
 import time
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
-from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph
+from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph, _flatten_requires
 from finmlkit.utils.log import get_logger
 
 logger = get_logger(__name__)
@@ -722,6 +722,33 @@ class Compose(BaseTransform):
         return self._run_pipeline(x, backend=backend)
 
 
+def _identity(t):
+    """Value that is equal for transforms that compute the same (class, parameters and child transforms)."""
+    if isinstance(t, BaseTransform):
+        return type(t), tuple((k, _identity(v)) for k, v in sorted(vars(t).items()))
+    if isinstance(t, (list, tuple)):
+        return tuple(_identity(v) for v in t)
+    return repr(t)
+
+
+def _own_columns(t):
+    """(column, identity) of each output of a transform"""
+    names = [t.output_name] if isinstance(t.output_name, str) else t.output_name
+    return [(name, _identity(t)) for name in names]
+
+
+def _produced_columns(t):
+    """(column, identity) of each result a transform may reuse from the frame: its own, and those of its parts"""
+    cols = _own_columns(t)
+    for part in ("left", "right", "transform"):
+        if isinstance(getattr(t, part, None), BaseTransform):
+            cols += _produced_columns(getattr(t, part))
+    if isinstance(t, Compose):
+        for k in range(1, len(t.transforms)):
+            cols += _produced_columns(t.transforms[0] if k == 1 else Compose(*t.transforms[:k]))
+    return cols
+
+
 class FeatureKit:
     r"""High-level orchestration framework for executing collections of Feature objects in financial machine learning pipelines.
 
@@ -1038,11 +1065,19 @@ class FeatureKit:
 
         timing_info = {}
 
+        # Column names do not identify a transform (Return and log Return are both "close_ret1"), so remember which
+        # transform produced a cached column and hide it from features that would mistake it for their own result
+        producer = {}
+
         for feat in features_seq:
             if timeit:
                 start_time = time.time()
 
-            res = feat(df, cache=df, backend=backend)
+            required = set(_flatten_requires(feat.transform))
+            mistaken = [col for col, key in _produced_columns(feat.transform)
+                        if producer.get(col, key) != key and col not in required]
+            src = df.drop(columns=mistaken) if mistaken else df
+            res = feat(src, cache=src, backend=backend)
 
             if timeit:
                 elapsed = time.time() - start_time
@@ -1061,6 +1096,7 @@ class FeatureKit:
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
+            producer.update(_own_columns(feat.transform))
 
         if timeit:
             # Create a simple console plot for timing information
-- 
2.43.0


From 0a632e8a4075b828cdf7be5027c20ca6457c4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 61/90] fix: CUSUMTest ages wrapped around for max_age above
 255

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 8a9b4c6..519defc 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -701,10 +701,10 @@ class CUSUMTest(SIMOTransform):
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_up = age_up.clip(0, self.max_age).astype(np.min_scalar_type(self.max_age)).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(np.min_scalar_type(self.max_age)).values
 
         # Return all features
         return self._prepare_output_nb(
-- 
2.43.0


From 38c6708a107768738fa4893caf222614d0508e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 62/90] fix: NumPy integer parameters became strings in a
 feature configuration

---
 finmlkit/feature/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 64d827f..8663968 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -26,6 +26,8 @@ def _serialize_value(val: Any) -> Any:
         pd = None
     if pd is not None and isinstance(val, pd.Timedelta):
         return {"__timedelta__": True, "seconds": val.total_seconds()}
+    if isinstance(val, (np.bool_, np.number)) and not isinstance(val, np.timedelta64):
+        return val.item()
     if isinstance(val, (str, int, float, bool)) or val is None:
         return val
     if isinstance(val, (list, tuple)):
-- 
2.43.0


From 588402b704215e15a041af02181dace14ef99d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 63/90] fix: loading a custom operation named clip_... silently
 replaced it by no clipping at all

---
 finmlkit/feature/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 8663968..9f91500 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -94,12 +94,9 @@ def _maybe_unary_from_name(name: str):
         parts = name.split("_")
         try:
             lower = float(parts[1]) if parts[1] != "" else None
-        except Exception:
-            lower = None
-        try:
             upper = float(parts[2]) if len(parts) > 2 and parts[2] != "" else None
-        except Exception:
-            upper = None
+        except ValueError:
+            return None  # a custom function that happens to be named clip_..., not Feature.clip
         return lambda x: x.clip(lower=lower, upper=upper)
 
     # Rolling/statistical patterns
-- 
2.43.0


From 294e16875448481c60fdbc9b7c865e3f59f2ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 64/90] fix: developing value areas without buckets reached
 into the price range of later bars

---
 finmlkit/feature/core/volume.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 68bc129..2d7bdc0 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -543,13 +543,16 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
 
         developing_total_volumes = developing_buy_volumes + developing_sell_volumes
 
+        # Trim the levels that have not been traded yet, the range of later bars is not known at this point
+        current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
+                                                                             developing_total_volumes)
+        if len(current_price_levels) == 0:
+            continue
+
         # Bucket price levels
         if n_bins is not None:
             assert price_tick is not None, "Price tick should be provided for bucketing price levels correctly..."
 
-            # Before bucketing, we have to trim the trailing zeros
-            current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
-                                                                                 developing_total_volumes)
             # Bucket the price levels and volumes
             bucketed_price_levels, bucketed_total_volumes = bucket_price_levels(current_price_levels,
                                                                                 developing_total_volumes, n_bins)
@@ -559,7 +562,7 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
                                                                va_pct)
         else:
             # Calculate the POC, HVA, and LVA
-            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
+            poc_price, hva_price, lva_price = comp_poc_hva_lva(current_price_levels, developing_total_volumes,
                                                                va_pct)
 
         poc_prices[t - start_idx] = poc_price
-- 
2.43.0


From 2e93d0549670404808d834f18858e6af8549be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 65/90] fix: binance2h5 lost every later month without notice
 after one month could not be written

---
 scripts/binance2h5.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 24832ad..60e1ebf 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -221,7 +221,15 @@ def _writer_thread(queue: multiprocessing.Queue, h5_path: str, counters: dict, l
             break
         trades, date = item
         print(f"Writing {date} trades to {h5_path}...")
-        trades.save_h5(h5_path, mode='a', overwrite_month=True)
+        try:
+            trades.save_h5(h5_path, mode='a', overwrite_month=True)
+        except Exception as err:
+            # A failed month must not keep the remaining months from being written
+            print(f"Error writing {date} trades: {err}")
+            with lock:
+                counters['errors'] += 1
+                counters['consumed'] += 1
+            continue
         print(f"Finished writing {date} trades.")
         with lock:
             counters['consumed'] += 1
-- 
2.43.0


From 1be02a6412fcddfdd122ec5834448c046368bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 66/90] fix: binance2h5 left interrupted downloads under their
 final name and took them for complete ones in the next run

---
 scripts/binance2h5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 60e1ebf..1f0dbc4 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -322,7 +322,8 @@ def download_file(url: str, dest_path: str, session: requests.Session, retries:
                     return False
                 r.raise_for_status()
                 total = int(r.headers.get('content-length', 0))
-                with open(dest_path, 'wb') as f, tqdm(
+                part_path = dest_path + '.part'
+                with open(part_path, 'wb') as f, tqdm(
                     total=total if total > 0 else None, unit='B', unit_scale=True, desc=os.path.basename(dest_path), leave=False
                 ) as pbar:
                     for chunk in r.iter_content(chunk_size=1024 * 1024):
@@ -330,6 +331,8 @@ def download_file(url: str, dest_path: str, session: requests.Session, retries:
                             f.write(chunk)
                             if total > 0:
                                 pbar.update(len(chunk))
+                # Only complete downloads get the final name: existing files are not downloaded again
+                os.replace(part_path, dest_path)
             return True
         except Exception:
             if attempt == retries - 1:
-- 
2.43.0


From bb2f566860f994b9db4fc56a6be17b07e251aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 67/90] fix: binance2h5 could not read archives with a header
 row

---
 scripts/binance2h5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 1f0dbc4..3bec17a 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -150,8 +150,10 @@ def load_csv_from_zip(zip_path: str) -> pd.DataFrame:
         with z.open(name) as f:
             raw = f.read()
             buf = io.BytesIO(raw)
+            # Newer futures archives start with a header row
+            header = None if raw[:1].isdigit() else 0
             try:
-                df = pd.read_csv(buf, header=None)
+                df = pd.read_csv(buf, header=header)
             except Exception:
                 buf.seek(0)
                 df = pd.read_csv(buf)
-- 
2.43.0


From 608acf4a9437505ae3ed0831be6e42605dd97099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 68/90] fix: binance2h5 replaced the file of the full range by
 an older one of a shorter range

---
 scripts/binance2h5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 3bec17a..e1fd77b 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -427,7 +427,8 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
     for path in existing:
         a, b = parse_range_from_name(os.path.basename(path))
         if a == yymm_start and b and b < yymm_end:
-            if path != target_path:
+            # Never replace a file that already covers the full range
+            if path != target_path and not os.path.exists(target_path):
                 print(f"Renaming {os.path.basename(path)} -> {target_name}")
                 os.replace(path, target_path)
             break
-- 
2.43.0


From 4cc1d000dbe4b3a0574af9bcdbf4499676fabea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 69/90] fix: a date slice of a footprint container honours its
 step

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 373fdc4..b3db411 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -896,7 +896,7 @@ class FootprintData:
             if isinstance(key, slice) and isinstance(key.start, (str, dt.datetime)) and isinstance(key.stop, (str, dt.datetime)):
                 # Use pandas indexing with datetime slice
                 start_idx, end_idx = self._datetime_index.slice_locs(start=key.start, end=key.stop)
-                return self[start_idx:end_idx]
+                return self[start_idx:end_idx:key.step]
 
             # Handle integer index or regular slicing
             if isinstance(key, int):
-- 
2.43.0


From 336d8c382ac32fd25c8310ed904ffdce489a2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 70/90] fix: the inferred tick size takes all prices into
 account

---
 finmlkit/bar/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index d88f582..c7f4ef8 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -58,9 +58,8 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
     if len(prices) == 0:
         raise ValueError("Empty prices array")
 
-    # Limit sample size and round to mitigate floating-point errors
-    price_sample = np.round(prices[:min(10000, len(prices))], decimals=12)
-    unique_prices = np.unique(price_sample)
+    # Round to mitigate floating-point errors. All prices count: a finer increment may first appear late
+    unique_prices = np.unique(np.round(prices, decimals=12))
 
     if len(unique_prices) <= 1:
         return 0.0
-- 
2.43.0


From f66e409bb775858a0a0b58ef8ac523d771fa2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 71/90] fix: a refused labelling leaves the features of the
 previous run in place

---
 finmlkit/label/kit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 1d83f1d..ee393e6 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -280,25 +280,27 @@ class TBMLabel:
         """
         if not isinstance(trades, TradesData):
             raise ValueError("Trades must be an instance of TradesData.")
-        self._features = self._drop_trailing_events(trades)
+        features = self._drop_trailing_events(trades)
 
-        if "event_idx" in self._features.columns:
-            event_idx = self._features.event_idx.values
+        if "event_idx" in features.columns:
+            event_idx = features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.as_unit('ns').values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, features.index.as_unit('ns').values.astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
             timestamps=trades.data.timestamp.values,
             close=trades.data.price.values,
             event_idxs=event_idx,
-            targets=self.target_returns.values,
+            targets=features[self.target_ret_col].values,
             horizontal_barriers=self.horizontal_barriers,
             vertical_barrier=self.vertical_barrier,
             min_close_time_sec=self.min_close_time_sec,
-            side=self.features['side'].values.astype(np.int8) if self.is_meta else None,
+            side=features['side'].values.astype(np.int8) if self.is_meta else None,
             min_ret=self.min_ret
         )
+        # Only now: if the labels cannot be computed, the features must keep describing the labels of the previous run
+        self._features = features
 
         # Construct the output DataFrame
         self._out = pd.DataFrame({
-- 
2.43.0


From 4dc61f498fa06e3b1aacc30f7a5c4313d68bf98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 72/90] fix: FootprintData.is_valid checks the optional per-bar
 arrays too

---
 finmlkit/bar/data_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index b3db411..ca6bc0d 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -1071,6 +1071,11 @@ class FootprintData:
             self.price_levels, self.buy_volumes, self.sell_volumes,
             self.buy_ticks, self.sell_ticks, self.buy_imbalances, self.sell_imbalances
         ]
+        optional = [
+            self.cot_price_levels, self.sell_imbalances_sum, self.buy_imbalances_sum,
+            self.imb_max_run_signed, self.vp_skew, self.vp_gini
+        ]
+        attributes += [attr for attr in optional if attr is not None]
         for attr in attributes:
             if len(attr) != expected_length:
                 return False
-- 
2.43.0


From 6aa96350da7adb4027efe0fb57f6f3032d93186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 73/90] fix: ExternalFunction refuses a single result when
 several outputs are declared

---
 finmlkit/feature/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 519defc..2cfa30c 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1800,6 +1800,8 @@ class ExternalFunction(BaseTransform):
                 outs.append(s)
             return tuple(outs)
         else:
+            if isinstance(self.produces, list) and len(self.produces) != 1:
+                raise ValueError(f"ExternalFunction returned 1 output, but produces={self.produces}")
             if isinstance(result, pd.Series):
                 s = result.copy()
                 s.name = self.output_name if isinstance(self.output_name, str) else self.produces[0]
-- 
2.43.0


From abe1c862c8a5bfc0d4d236cc671eebbd27e0fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 74/90] fix: order of graph nodes and combined inputs no longer
 depends on string hashing

---
 finmlkit/feature/base.py  | 4 ++--
 finmlkit/feature/utils.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index ac8839a..af456f9 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1258,7 +1258,7 @@ class BinaryOpTransform(BaseTransform):
     """Transform that applies binary operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
@@ -1370,7 +1370,7 @@ class MinMaxOpTransform(BaseTransform):
     """Transform that applies min or max operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 9f91500..161f11e 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -323,8 +323,8 @@ class ComputationGraph:
         self.edges.setdefault(node, set())
 
     def topological_sort(self) -> List[str]:
-        # Kahn's algorithm
-        indeg = {n: 0 for n in self.nodes}
+        # Kahn's algorithm, in insertion order: sets of strings are ordered by their hash, which differs between runs
+        indeg = {n: 0 for n in self.edges}
         for src, dests in self.edges.items():
             for d in dests:
                 indeg[d] = indeg.get(d, 0) + 1
@@ -333,7 +333,7 @@ class ComputationGraph:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(self.edges.get(n, [])):
+            for d in sorted(self.edges.get(n, [])):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
@@ -350,7 +350,7 @@ class ComputationGraph:
 def _flatten_requires(t: BaseTransform) -> List[str]:
     # For op transforms, union child requires
     if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
-        return list(set(_flatten_requires(t.left) + _flatten_requires(t.right)))
+        return list(dict.fromkeys(_flatten_requires(t.left) + _flatten_requires(t.right)))
     if isinstance(t, (UnaryOpTransform, ConstantOpTransform)):
         return _flatten_requires(t.transform)
     if hasattr(t, "transforms") and isinstance(getattr(t, "transforms", None), (list, tuple)):
-- 
2.43.0


From d2f56182cdc0042ddb737ad24f6fb085c4782c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 75/90] fix: keep the first of the rows sharing a trade id

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index ca6bc0d..99136d0 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -303,7 +303,7 @@ class TradesData:
         self.discontinuities = []  # Reset discontinuities list
 
         # Sort by ID to inspect data integrity
-        self.data.sort_values(by=['id'], inplace=True)
+        self.data.sort_values(by=['id'], inplace=True, kind='stable')
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 888e781fd66259f97d882ddd3dd9cf77df5ce00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 76/90] fix: no normalized ATR without a positive mid price

---
 finmlkit/feature/core/volatility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index ab0100a..b7aec51 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -423,8 +423,11 @@ def atr(high: NDArray[np.float64],
     if normalize:
         mid_price = (high + low) / 2.0
         for i in range(n):
-            if not np.isnan(atr_values[i]) and not np.isnan(mid_price[i]) and mid_price[i] > 0:
+            if mid_price[i] > 0:
                 atr_values[i] = atr_values[i] / mid_price[i]
+            else:
+                # Without a mid price there is nothing to normalize by
+                atr_values[i] = np.nan
 
     return atr_values
 
-- 
2.43.0


From 07be951c36c1b893e609a08ea8c274e8f80f7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 77/90] fix: compute the time bar grid in integers

---
 finmlkit/bar/logic.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index a9bac1f..6248cc6 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,16 +27,18 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # Present-day nanosecond timestamps are not exact in float64: the grid is computed in integers
+    bar_interval_ns = np.int64(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
-    # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    # close of the bar of the last tick
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
-    # create the array of bar close timestamps
-    bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
+    # create the array of bar close timestamps (only the number of them is estimated in float64)
+    n_closes = int(np.ceil((np.float64(last_ts) + bar_interval_ns + 1 - bar_start_ts) / bar_interval_ns))
+    bar_clock = bar_start_ts + np.arange(n_closes) * bar_interval_ns
 
     # find the indices of the bar close timestamps in the raw trades timestamps
     bar_close_indices = (np.searchsorted(timestamps, bar_clock, side='right') - 1).astype(np.int64)
-- 
2.43.0


From 23c56bc2f7aab29f4609466d9d8d116745be16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 78/90] fix: exponentially weighted deviations lost their
 digits to the level of the series

---
 finmlkit/feature/core/volatility.py | 50 ++++++++++++-----------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b7aec51..38cffa7 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -34,8 +34,8 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
     # Initialize cumulative sums and weights
     S_w = 0.0    # Cumulative sum of weights
     S_w2 = 0.0   # Cumulative sum of squared weights
-    S_y = 0.0    # Cumulative sum of weighted y
-    S_y2 = 0.0   # Cumulative sum of weighted y^2
+    mean = 0.0   # Weighted mean
+    S_yy = 0.0   # Cumulative sum of weighted squared deviations (squares of the levels would cancel)
     n_obs = 0    # Observations so far
 
     for t in range(n):
@@ -45,22 +45,19 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         S_w = one_minus_alpha * S_w + (0.0 if np.isnan(y_t) else 1.0)
         S_w2 = (one_minus_alpha ** 2) * S_w2 + (0.0 if np.isnan(y_t) else 1.0)
 
-        # Update cumulative sums
+        # Update mean and squared deviations (a missing value only decays them)
+        S_yy = one_minus_alpha * S_yy
         if not np.isnan(y_t):
-            S_y = one_minus_alpha * S_y + y_t
-            S_y2 = one_minus_alpha * S_y2 + y_t ** 2
+            delta = y_t - mean
+            mean += delta / S_w
+            S_yy += delta * (y_t - mean)
             n_obs += 1
-        else:
-            # Decay the cumulative sums without adding new data
-            S_y = one_minus_alpha * S_y
-            S_y2 = one_minus_alpha * S_y2
 
-        # Calculate mean and variance if cumulative weight is positive
+        # Calculate variance if cumulative weight is positive
         if S_w > 0.0:
-            mean = S_y / S_w
             denominator = S_w - (S_w2 / S_w)
             if n_obs > 1 and denominator > 0.0:
-                variance = (S_y2 / S_w - mean ** 2) * S_w / denominator
+                variance = S_yy / denominator
                 variance = max(variance, 0.0)  # Ensure non-negative variance
                 ewm_std[t] = np.sqrt(variance)
             else:
@@ -151,15 +148,12 @@ def ewmst(
     Maintains:
       V  = sum of weights
       V2 = sum of squared weights
-      Sy  = EWMA sum of y
-      Syy = EWMA sum of y^2
+      mean = EWMA of y
+      Syy  = EWMA sum of squared deviations from the mean
 
     Then
-      mean_t   = Sy / V
-      ewma_y2  = Syy / V
-      var_raw  = ewma_y2 - mean_t^2
       denom    = V - V2 / V
-      var_t    = var_raw * (V / denom)
+      var_t    = Syy / denom
       σ_t      = sqrt(max(var_t, 0))
     """
     n = y.shape[0]
@@ -170,8 +164,8 @@ def ewmst(
     # Initialize
     V   = 0.0    # sum of weights
     V2  = 0.0    # sum of squared weights
-    Sy  = 0.0    # EWMA sum of y
-    Syy = 0.0    # EWMA sum of y^2
+    mean = 0.0   # EWMA of y
+    Syy = 0.0    # EWMA sum of squared deviations (squares of the levels would cancel)
     n_obs = 0    # observations with a weight so far
     last_ts = timestamps[0]
     out[0] = np.nan
@@ -192,25 +186,23 @@ def ewmst(
             # decay only
             V   = one_minus * V
             V2  = (one_minus*one_minus) * V2
-            Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
             V   = alpha       + one_minus * V
             V2  = alpha*alpha + (one_minus*one_minus) * V2
-            Sy  = alpha * yi        + one_minus * Sy
-            Syy = alpha * yi * yi   + one_minus * Syy
+            Syy = one_minus * Syy
             if alpha > 0.0:
+                delta = yi - mean
+                mean += alpha * delta / V
+                Syy  += alpha * delta * (yi - mean)
                 n_obs += 1
 
-        # compute mean & raw variance
+        # compute variance
         if V > 0.0:
-            mean   = Sy  / V
-            ewma_y2= Syy / V
-            var_raw= ewma_y2 - mean*mean
             # bias correction
             denom = V - (V2 / V) if V > 0.0 else 0.0
-            if n_obs > 1 and denom > 0.0 and var_raw > 0.0:
-                var = var_raw * (V / denom)
+            if n_obs > 1 and denom > 0.0 and Syy > 0.0:
+                var = Syy / denom
             else:
                 var = 0.0
 
-- 
2.43.0


From 29b7c7d537af116a36e1a280b61283f082140dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 79/90] fix: minimum close time was rounded up, a bar exactly
 at it could not close

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index dc4b6c7..9da2b2a 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -65,7 +65,7 @@ def triple_barrier(
     bottom_mult, top_mult = horizontal_barriers
     # Convert to nanoseconds (integer: float64 cannot represent present-day end timestamps exactly)
     vertical_barrier_ns = np.int64(round(min(vertical_barrier * 1e9, 4e18)))
-    min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
+    min_close_time_ns = np.int64(round(min(min_close_time_sec * 1e9, 4e18)))    # 0.067 s * 1e9 is above 67000000
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
-- 
2.43.0


From 6cceec845419f8549485ec2ffb6138655e35716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 80/90] fix: vpin windows kept the rounding errors of all
 earlier volumes

---
 finmlkit/feature/core/volume.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 2d7bdc0..bb18227 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -608,30 +608,15 @@ def vpin(volume_buy, volume_sell, window):
     n = len(volume_buy)
     out = np.full(n, np.nan, dtype=np.float32)
 
-    # Pre-compute cumulative sums
-    buy_cum  = np.empty(n+1)
-    sell_cum = np.empty(n+1)
-    abs_cum  = np.empty(n+1)
-    nan_flag = np.empty(n+1, dtype=np.int64)
-
-    buy_cum[0] = sell_cum[0] = abs_cum[0] = 0.0
-    nan_flag[0] = 0
-
-    for i in range(n):
-        vb = volume_buy[i]
-        vs = volume_sell[i]
-        is_nan = np.isnan(vb) or np.isnan(vs)
-
-        buy_cum[i+1]  = buy_cum[i]  + (0.0 if is_nan else vb)
-        sell_cum[i+1] = sell_cum[i] + (0.0 if is_nan else vs)
-        abs_cum[i+1]  = abs_cum[i]  + (0.0 if is_nan else abs(vb - vs))
-        nan_flag[i+1] = nan_flag[i] + is_nan
-
-        if i >= window-1 and (nan_flag[i+1] - nan_flag[i+1-window] == 0):
-            tot  = (buy_cum[i+1] - buy_cum[i+1-window]) \
-                 + (sell_cum[i+1] - sell_cum[i+1-window])
-
+    for i in range(window - 1, n):
+        # sums of the window itself: earlier volumes must not leave rounding errors behind
+        tot = 0.0
+        imb = 0.0
+        for k in range(i + 1 - window, i + 1):
+            tot += volume_buy[k] + volume_sell[k]
+            imb += abs(volume_buy[k] - volume_sell[k])
+
+        if not np.isnan(tot):               # a missing volume leaves its windows missing
             if tot > 1e-9:
-                imb  = abs_cum[i+1] - abs_cum[i+1-window]
                 out[i] = imb / tot          # float32 already
     return out
-- 
2.43.0


From 7062e373a17f1facdd072f98e32aea6943ed51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 81/90] fix: volume profile window was cut by a nanosecond, a
 bar exactly at its start was left out

---
 finmlkit/feature/core/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index bb18227..79a73bf 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -420,7 +420,7 @@ def volume_profile_rolling(ts: np.ndarray, highs: np.ndarray, lows: np.ndarray,
     lva_prices = np.zeros(n_bars, dtype=np.int32)
     vp_pct_abv_poc = np.zeros(n_bars, dtype=np.float32)  # New array for percentage above POC
 
-    window_interval_ns = int(window_size_sec * 1e9)
+    window_interval_ns = np.int64(round(window_size_sec * 1e9))  # 1.001 s * 1e9 is below 1001000000
     first_interval_idx = np.searchsorted(ts, ts[0] + window_interval_ns)
 
 
-- 
2.43.0


From 64274d20a196aace6aeb346f04cf920c01ca9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 82/90] fix: rolling variance lost its digits to the level of
 the series

---
 finmlkit/feature/core/volatility.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 38cffa7..8f608e0 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -445,22 +445,25 @@ def rolling_variance_nb(series: NDArray[np.float64], window: int, ddof: int = 1,
         window_data = series[i - window + 1:i + 1]
         valid_count = 0
         sum_val = 0.0
-        sum_sq = 0.0
+        level = 0.0
 
-        # Calculate sum and sum of squares for valid values
+        # Calculate sum of valid values relative to the first one
         for j in range(window):
             if not np.isnan(window_data[j]):
+                if valid_count == 0:
+                    level = window_data[j]
                 valid_count += 1
-                sum_val += window_data[j]
-                sum_sq += window_data[j] * window_data[j]
+                sum_val += window_data[j] - level
 
         # Calculate variance if we have enough observations
         if valid_count >= min_periods:
             if valid_count > ddof:
                 mean_val = sum_val / valid_count
-                variance = (sum_sq / valid_count) - (mean_val * mean_val)
-                variance *= (valid_count / (valid_count - ddof))  # Adjustment for sample variance
-                result[i] = max(0.0, variance)  # Ensure non-negative variance
+                sum_sq = 0.0  # squared deviations: the squares of the values themselves would cancel
+                for j in range(window):
+                    if not np.isnan(window_data[j]):
+                        sum_sq += (window_data[j] - level - mean_val) ** 2
+                result[i] = sum_sq / (valid_count - ddof)  # Adjustment for sample variance
 
     return result
 
-- 
2.43.0


From 1c273f8f15d17c1bd1b67f3f79c2609f971bfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 83/90] fix: time-decayed deviation of a flat series was
 rounding noise

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 8f608e0..ddfd38f 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -193,7 +193,7 @@ def ewmst(
             Syy = one_minus * Syy
             if alpha > 0.0:
                 delta = yi - mean
-                mean += alpha * delta / V
+                mean += delta * (alpha / V)  # the ratio of the first weight is exactly 1
                 Syy  += alpha * delta * (yi - mean)
                 n_obs += 1
 
-- 
2.43.0


From 06624b767da6f7718875c62f8da8ef488817af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 84/90] fix: time bars of a period such as 4.1 s could not be
 built, their frequency lost a nanosecond

---
 finmlkit/bar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index d76758d..a2256b0 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -164,7 +164,7 @@ class BarBuilderBase(ABC):
 
         # if there is a self.interval attribute, set the frequency to the interval
         if hasattr(self, 'interval'):
-            ohlcv_df.index.freq = pd.Timedelta(seconds=self.interval)
+            ohlcv_df.index.freq = pd.Timedelta(round(self.interval * 1e9), unit="ns")
 
         return ohlcv_df
 
-- 
2.43.0


From 16369a165a8c0bdfdba2f57979963b7c7ba60d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 85/90] fix: volume profile of a range left out the bar exactly
 one window before its start

---
 finmlkit/feature/core/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 79a73bf..db3c3f7 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -112,7 +112,7 @@ class VolumePro:
 
         start = pd.to_datetime(start)
         # Subtract the window size from the start timestamp to eliminate the first window warm-up
-        adjusted_start = start - pd.Timedelta(seconds=self.window_size_sec)
+        adjusted_start = start - pd.Timedelta(round(self.window_size_sec * 1e9), unit="ns")
 
         # Use FootprintBT's slicing to get the range
         fp_data_subset = fp_data[adjusted_start:end]
-- 
2.43.0


From 5cd2aa9a855c459a0c66bd9f81a38e910ed288cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 86/90] fix: a feature kit read back from its file had time
 windows shorter by a nanosecond

---
 finmlkit/feature/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 161f11e..a893e88 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -44,7 +44,7 @@ def _deserialize_value(val: Any) -> Any:
     except Exception:  # pragma: no cover
         pd = None
     if isinstance(val, dict) and val.get("__timedelta__") and pd is not None:
-        return pd.Timedelta(seconds=val["seconds"])  # type: ignore[arg-type]
+        return pd.Timedelta(round(val["seconds"] * 1e9), unit="ns")  # type: ignore[arg-type]
     if isinstance(val, list):
         return [_deserialize_value(v) for v in val]
     if isinstance(val, dict):
-- 
2.43.0


From feaaffc7fea01d7456f2c7494f3de91130c94e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 87/90] fix: bar rate did not count a bar exactly one window
 ago

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2cfa30c..b10790b 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1259,7 +1259,7 @@ class BarRate(SISOTransform):
         ones = pd.Series(1, index=x.index)
 
         # Use rolling window with time-based window size
-        window_td = pd.Timedelta(seconds=self.window_sec)
+        window_td = pd.Timedelta(round(self.window_sec * 1e9), unit="ns")
 
         # Count occurrences within the rolling window
         result = ones.rolling(window=window_td, closed='both').sum() / self.window_sec * 3600  # Convert to rate per hour
-- 
2.43.0


From 643ee13d7b315469995cdfa5258c3f8948d560c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 88/90] fix: an event whose vertical barrier is exactly the
 last trade could be dropped for a rounded nanosecond

---
 finmlkit/label/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index ee393e6..ed600d5 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -266,7 +266,7 @@ class TBMLabel:
         :return: Trimmed features DataFrame with events that are within the base series.
         """
         last_trade_timestamp = pd.Timestamp(trades.data.timestamp.values[-1], unit='ns')
-        return self._orig_features[self._orig_features.index + pd.Timedelta(self.vertical_barrier, unit="s") <= last_trade_timestamp]
+        return self._orig_features[self._orig_features.index + pd.Timedelta(round(self.vertical_barrier * 1e9), unit="ns") <= last_trade_timestamp]
 
 
     def compute_labels(self, trades: TradesData) -> tuple[pd.DataFrame, pd.DataFrame]:
-- 
2.43.0


From bdbe3eb946a292e789ac9cf5a404469ef48eaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 89/90] fix: mean reversion z-score kept the rounding errors of
 an outlier that had left its window

---
 finmlkit/feature/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index b10790b..89c3962 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1075,8 +1075,11 @@ class MeanReversionZScore(SISOTransform):
         return pd.Series(z_score, index=series.index, name=self.output_name)
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
-        logger.info(f"Fall back to pandas for {self.__class__.__name__}")
-        return self._pd(x)
+        # pandas' running sums keep the rounding errors of an outlier that has left the window
+        input_arr = self._prepare_input_nb(x)
+        result = comp_zscore(input_arr, self.window, 1)
+
+        return self._prepare_output_nb(x.index, result)
 
 
 class DailyGap(SISOTransform):
-- 
2.43.0


From b92fbfc38d79f7d7a96c5801b6465d668d3df85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 90/90] fix: kurtosis of a flat window was rounding noise
 divided by rounding noise

---
 finmlkit/feature/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 89c3962..ce890bd 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -937,7 +937,8 @@ class KurtosisTransform(SISOTransform):
         series = x[self.requires[0]]
 
         result = series.rolling(window=self.window).apply(
-            lambda x: stats.kurtosis(x, nan_policy='omit'),
+            # the mean of a flat window is rounded
+            lambda x: stats.kurtosis(x, nan_policy='omit') if x.max() > x.min() else np.nan,
             raw=True
         )
 
-- 
2.43.0

