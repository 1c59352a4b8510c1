From bc9892d8de3279ea1d86b3d8a6ae350dc4066fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 01/38] fix: stamps inside a minute are not a boundary of a
 (quarter)hour

---
 portfolyo/tools/isboundary.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..498bafe 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -80,6 +80,10 @@ def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarr
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
 
+def _is_minute_start(ts: pd.Timestamp) -> bool:
+    return ts.second == 0 and ts.microsecond == 0 and ts.nanosecond == 0
+
+
 # TODO: see if we can remove usage of this function.
 def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     f"""Check if timestamp is a valid delivery period start (or end).
@@ -100,9 +104,9 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     """
     start_of_day = start_of_day or dt.time(0, 0)
     if freq == "15min":
-        return ts.minute % 15 == 0
+        return ts.minute % 15 == 0 and _is_minute_start(ts)
     elif freq == "h":
-        return ts.minute == 0
+        return ts.minute == 0 and _is_minute_start(ts)
     elif freq == "D":
         return ts.time() == start_of_day
     elif freq == "MS":
-- 
2.43.0


From 94cba12124735d433460e3edb5ab34f42213d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 02/38] fix: floor and ceil to (quarter)hour around the end of
 DST

---
 portfolyo/tools/round.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 49329a4..10219fc 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -68,10 +68,17 @@ def stamp_current(
 
     # Fixed-duration frequency (= (quarter)hour): simply floor/ceil.
     if tools_freq.up_or_down(freq, "D") < 0:
+        # (Don't use ts.floor() or ts.ceil(); these fail at the end of DST.)
+        rounded = ts - pd.Timedelta(
+            minutes=ts.minute % (15 if freq == "15min" else 60),
+            seconds=ts.second,
+            microseconds=ts.microsecond,
+            nanoseconds=ts.nanosecond,
+        )
         if fn == "floor":
-            return ts.floor(freq, nonexistent="shift_backward")
+            return rounded
         else:
-            return ts.ceil(freq, nonexistent="shift_forward")
+            return rounded + tools_freq.to_offset(freq)
 
     # If we land here, the frequency is daily-or-longer.
 
-- 
2.43.0


From 944cc91cc1a7db15d3ca6c3eaba0529f3fa4ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 03/38] fix: longest and shortest compare the length of the
 periods

---
 portfolyo/tools/freq.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..6bfd666 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -212,7 +212,14 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
     common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
+    offsets = [pd.tseries.frequencies.to_offset(fr) for fr in freqs]
+    # Ensure a period starts at the common timestamp, also for e.g. 'QS-FEB' or 'YS-APR'.
+    for j, offset in enumerate(offsets):
+        if isinstance(offset, pd.tseries.offsets.QuarterBegin):
+            offsets[j] = pd.tseries.offsets.QuarterBegin(offset.n, startingMonth=1)
+        elif isinstance(offset, pd.tseries.offsets.YearBegin):
+            offsets[j] = pd.tseries.offsets.YearBegin(offset.n, month=1)
+    ts = [common_ts + offset for offset in offsets]
     i = (np.argmin if shortest else np.argmax)(ts)
     return freqs[i]
 
-- 
2.43.0


From 8d3f5247f5060d3730d6484100a8547a0269bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 04/38] fix: leftandright with timezones that have no zone
 attribute (e.g. UTC)

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From ae0dfb6d13f87a80e09176d79addab76fccdc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 05/38] fix: righttoleft for daily index that ends at a
 DST-transition

---
 portfolyo/tools/righttoleft.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5384352..99e0136 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -5,7 +5,6 @@ Calculate the left-bound timestamp of delivery period, given the right-bound one
 import pandas as pd
 
 from . import freq as tools_freq
-from . import startofday as tools_startofday
 
 
 def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
@@ -40,10 +39,12 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
         i = tools_freq.guess_to_index(i)
 
     if i.freq is not None:
-        i2 = i.shift(-1)
-        # HACK: pandas does not give correct result if first timestamp is after DST-transition
-        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
+        # HACK: i.shift(-1) fails or gives wrong result for 'D' around DST-transitions.
+        if i.freq == "D":
             i2 = i - tools_freq.to_offset(i.freq)
+            i2.freq = i.freq
+        else:
+            i2 = i.shift(-1)
         return i2
 
     # Couldn't infer frequency. Try from median timedelta and turn into time offset.
-- 
2.43.0


From 874b41e2e4678c4285f542a0d638bd576e6c6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 06/38] fix: nested line is truthy only if one of its children
 is

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..dec4da7 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From 223cdbeca31ebea1702a14e3d57f3c5329ad2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 07/38] fix: reindexing a nested line

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index dec4da7..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From e189df521aa6ac8bc028226a162bda21033fbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 08/38] fix: price of a sum of complete lines is its revenue
 over its energy

---
 portfolyo/core/pfline/arithmatic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..e30b148 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -229,10 +229,13 @@ class Add:
                 "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
             )
         if pfl1.kind is Kind.COMPLETE:
+            newdf["p"] = newdf["r"] / newdf["q"]
             # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
-            values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
-            weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            no_q = np.isclose(newdf["q"].pint.m, 0)
+            if no_q.any():
+                values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})[no_q]
+                weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})[no_q]
+                newdf.loc[no_q, "p"] = tools.wavg.dataframe(values, weights, axis=1)
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From 83a9e8267c5d5475a2dd0a6f40f700d04ebbd6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 09/38] fix: sum of nested lines is limited to the common
 timestamps of all children

---
 portfolyo/core/pfline/arithmatic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index e30b148..692c426 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -240,6 +240,12 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)  # keep only common rows
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
+        pfl1, pfl2 = pfl1.loc[idx], pfl2.loc[idx]
         newchildren = {}  # collect children and add those with same name
         for name in set([*pfl1, *pfl2]):
             if name in pfl1 and name in pfl2:
-- 
2.43.0


From 04ab827c48c105579302e472bda51dcacdeac447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 10/38] fix: multiplying lines without common timestamps is
 refused

---
 portfolyo/core/pfline/arithmatic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 692c426..e34a5d3 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -270,6 +270,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if len(q.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
-- 
2.43.0


From 8d5ba0926ac734ed3d88db8f5fa8c84b64d3ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 11/38] fix: multiples of quarters and years are not valid
 frequencies

---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 6bfd666..c2f528e 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From 84a1d542488ded75e6b1d6ddd822191e2c3287ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 12/38] fix: dataframe without units, and without any of the
 columns

---
 portfolyo/core/pfline/dataframeexport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..4d8c55b 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -36,8 +36,9 @@ class Flat:
         """
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
-        df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        if has_units:
+            return pd.DataFrame({col: self.df[col] for col in cols}, self.index)
+        return pd.DataFrame({col: self.df[col].pint.m for col in cols}, self.index)
 
 
 class Nested:
-- 
2.43.0


From 5cb325b5b363abd81e965a889c0b177563a17ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 13/38] fix: concatenate lines that meet at a DST-transition

---
 portfolyo/tools2/concat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..6d12d5f 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -107,6 +107,8 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
         # concatenate dataframes into one
         concat_data = pd.concat(dataframes_flat, axis=0)
         try:
+            # Frequency is lost if lines meet at DST-transition, so set it
+            concat_data = tools.freq.set_to_frame(concat_data, pfls[0].index.freq)
             # Call create.flatpfline() and catch any ValueError
             return create.flatpfline(concat_data)
         except ValueError as e:
-- 
2.43.0


From cdac24e64e99b417c6738e95652af66e50cf2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 14/38] fix: downsampling to periods that start on the day of a
 DST-transition

---
 portfolyo/tools/changefreq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..5bb7044 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -64,7 +64,9 @@ def _downsample_summable(s: pd.Series, freq: str) -> pd.Series:
     if target_vs_daily > 0:
         # workaround: (a) first downsample to days...
         s2 = s2.resample(freq).sum()
-        s2.index += offset  # ...(b) add the offset manually...
+        start_of_day = tools_startofday.get(s.index)
+        # ...(b) set the start-of-day manually (not by adding offset; wrong on DST day)...
+        s2.index = tools_startofday.set(s2.index, start_of_day)
         s2.index.freq = freq  # ...(c) and set the frequency manually as well.
     return s2.rename(s.name)
 
-- 
2.43.0


From f8378d227acf5d24f07b5080a7fe6ac9ab60a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 15/38] fix: refuse to reindex with an index that does not span
 whole days

---
 portfolyo/core/pfline/classes.py      | 1 +
 portfolyo/core/pfline/flat_methods.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index a2c1586..9ce0506 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -440,6 +440,7 @@ class FlatCompletePfLine(FlatPfLine, CompletePfLine, PfLine):
 
     def reindex(self, index: pd.DatetimeIndex) -> FlatCompletePfLine:
         tools.testing.assert_indices_compatible(self.index, index)
+        tools.standardize.assert_index_standardized(index)
         newdf = self.df[["w", "q", "r"]].reindex(index, fill_value=0)
         newdf["p"] = newdf["r"] / newdf["q"]
         return FlatCompletePfLine(newdf)
diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..45216b8 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -94,6 +94,7 @@ def slice(self: FlatPfLine) -> SliceIndexer:
 
 def reindex(self: FlatPfLine, index: pd.DatetimeIndex) -> FlatPfLine:
     tools.testing.assert_indices_compatible(self.index, index)
+    tools.standardize.assert_index_standardized(index)
     newdf = self.df.reindex(index, fill_value=0)
     return self.__class__(newdf)
 
-- 
2.43.0


From 0c9b64a36672e2f0d53f453006a1e3bf4efd0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 16/38] fix: stamps inside a minute are not at a full
 (quarter)hour

---
 portfolyo/tools/standardize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 487fcc8..031745b 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -190,13 +190,15 @@ def assert_index_standardized(i: pd.DatetimeIndex, __right: bool = False):
                 f"The first element in an index with {err[0]} quarterhourly values must be {err[1]} hour; found {i[0]}."
             )
 
-        if any(not_ok := [ts.minute not in (0, 15, 30, 45) for ts in i]):
+        if any(
+            not_ok := [ts.minute not in (0, 15, 30, 45) or ts.second != 0 for ts in i]
+        ):
             raise AssertionError(
                 "In an index with quarterhourly values, all timestamps (all periods) should"
                 f" start at a full quarter-hour; found {i[not_ok]}."
             )
     else:  # longer than quarterhour
-        if any(not_ok := i.minute != 0):
+        if any(not_ok := (i.minute != 0) | (i.second != 0)):
             raise AssertionError(
                 "In an index with hourly-or-longer values, all timestamps (all periods) should"
                 f" start at a full hour; found {i[not_ok]}."
-- 
2.43.0


From 36de30af544cc9613c58bff48c3bfad9a1b808c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 17/38] fix: mark-to-market of sourced volume is defined where
 sourced volume is 0

---
 portfolyo/core/pfstate/pfstate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index 2652e63..e687248 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -290,7 +290,9 @@ class PfState(
 
     def mtm_of_sourced(self) -> PfLine:
         """Mark-to-Market value of sourced volume."""
-        return self.sourced.volume * (self.unsourcedprice - self.sourced.price)
+        # Do not use sourced price, as it is undefined if sourced volume is 0.
+        sourced = self.sourced.flatten()
+        return sourced.volume * self.unsourcedprice - sourced.revenue
 
     # Dunder methods.
 
-- 
2.43.0


From d1f372b55d01e9b9f8a0fe1dc7896ad71f3a486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 18/38] fix: concatenating fewer than 2 portfolio states raises
 an error, as with portfolio lines

---
 portfolyo/tools2/concat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index 6d12d5f..9b402df 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -144,8 +144,9 @@ def concat_pfstates(pfss: Iterable[PfState]) -> PfState:
 
     """
     if len(pfss) < 2:
-        print("Concatenate needs at least two elements.")
-        return
+        raise NotImplementedError(
+            "Cannot perform operation with less than 2 portfolio states."
+        )
     offtakevolume = concat_pflines([pfs.offtakevolume for pfs in pfss])
     sourced = concat_pflines([pfs.sourced for pfs in pfss])
     unsourcedprice = concat_pflines([pfs.unsourcedprice for pfs in pfss])
-- 
2.43.0


From be1210f520b63ddd80e20cb89aeacbd68577e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 19/38] fix: filling gaps next to leading or trailing missing
 values

---
 portfolyo/tools/frame.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..f66e2c3 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -28,28 +28,18 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     if isinstance(fr, pd.DataFrame):
         return pd.DataFrame({c: fill_gaps(s, maxgap) for c, s in fr.items()})
 
-    is_gap = fr.isna()
-    next_gap = is_gap.shift(-1)
-    prev_gap = is_gap.shift(1)
-    index_beforegap = fr[~is_gap & next_gap].index
-    index_aftergap = fr[~is_gap & prev_gap].index
-    # remove orphans at beginning and end
-    if index_beforegap.empty:
+    # Positions of the values that are not missing; a gap lies between two of these.
+    known = np.flatnonzero(fr.notna())
+    if len(known) == len(fr):
         return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
-        index_beforegap = index_beforegap[:-1]
-    if index_aftergap.empty:
-        return fr
-    elif index_aftergap[0] < index_beforegap[0]:
-        index_aftergap = index_aftergap[1:]
     fr = fr.copy()
-    for i_before, i_after in zip(index_beforegap, index_aftergap):
-        section = fr.loc[i_before:i_after]
-        if len(section) > maxgap + 2:
+    for before, after in zip(known[:-1], known[1:]):
+        if not 0 < after - before - 1 <= maxgap:
             continue
-        x0, y0, x1, y1 = i_before, fr[i_before], i_after, fr[i_after]
+        x0, y0, x1, y1 = fr.index[before], fr.iloc[before], fr.index[after], fr.iloc[after]
         dx, dy = x1 - x0, y1 - y0
-        fr.loc[i_before:i_after] = y0 + (section.index - x0) / dx * dy
+        section = fr.index[before + 1 : after]
+        fr.iloc[before + 1 : after] = y0 + ((section - x0) / dx).to_numpy() * dy
     return fr
 
 
-- 
2.43.0


From 40203a71136420ef45f8406bcb44eeb89c717660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 20/38] fix: weighted averages with missing values, if weights
 are equal, sum to 0, or units are distinct

---
 portfolyo/tools/wavg.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..b9a34e1 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -134,8 +134,12 @@ def series(
     except KeyError as e:  # more weights than values
         raise ValueError("No values found for one or more weights.") from e
 
-    # Unweighted average if all weights the same but not all 0.
-    if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
+    # Unweighted average if all weights the same but not all 0 (and no missing values).
+    if (
+        weights.nunique() == 1
+        and not np.isclose(weights.iloc[0], 0)
+        and not s.isna().any()
+    ):
         return s.mean()
 
     # Replace NaN with 0 in locations where it doesn't change the result.
@@ -162,6 +166,7 @@ def series(
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
     if np.isclose(weightsum, 0):  # edge case (more common)
+        s = s[weights != 0]  # values with weight 0 are ignored
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
 
@@ -211,6 +216,19 @@ def dataframe(
         df = tools_unit.defaultunit(df)
         return df.apply(np.mean, axis=axis)  # can't do .mean() if pint-series
 
+    # Columns with distinct units cannot be handled as one frame after transposing.
+    if axis == 0 and df.dtypes.nunique() > 1 and df.columns.is_unique:
+        if isinstance(weights, pd.DataFrame):
+            try:
+                df = df[weights.columns]
+            except KeyError as e:  # more weights than values
+                raise ValueError("No values found for one or more weights.") from e
+            results = [dataframe(df[[c]], weights[[c]], axis) for c in df]
+        else:
+            weights = weights_as_series(weights, df.index)
+            results = [dataframe(df[[c]], weights, axis) for c in df]
+        return tools_unit.defaultunit(pd.concat(results))
+
     # Prep: orient so that we can always average over columns.
     if axis == 0:
         df = df.T  # slow, but axis==0 is uncommon
-- 
2.43.0


From 52d6034437ba9e43ecad60dcd71c908755cf64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 21/38] fix: intersecting one index, empty indices, or indices
 with equal start-of-day

---
 portfolyo/tools/intersect.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..c954caa 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -112,9 +112,20 @@ def indices_flex(
     if len(distinct_tzs) != 1 and ignore_tz is False:
         raise ValueError(f"Indices must have equal timezones; got {distinct_tzs}.")
 
+    freq, name, tz = [], [], []
+    for i in range(len(idxs)):
+        freq.append(idxs[i].freq)
+        name.append(idxs[i].name)
+        tz.append(idxs[i].tz)
+
+    # Result if there is no overlap.
+    empty_idxs = tuple(
+        pd.DatetimeIndex([], freq=f, tz=t, name=n) for f, t, n in zip(freq, tz, name)
+    )
+
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return empty_idxs
 
     # If we land here, we have at least 2 indices, all are not empty.
 
@@ -127,12 +138,6 @@ def indices_flex(
                 "Downsample all indices to daily-or-longer, or trim them so they have the same start-of-day, before attempting to calculate the intersection"
             )
 
-    freq, name, tz = [], [], []
-    for i in range(len(idxs)):
-        freq.append(idxs[i].freq)
-        name.append(idxs[i].name)
-        tz.append(idxs[i].tz)
-
     longest_freq = freq[0]
     if ignore_freq is True and len(distinct_freqs) != 1:
         # Find the longest frequency
@@ -142,6 +147,8 @@ def indices_flex(
             # if idxs[i].freq is not the same as longest freq, we trim idxs[i]
             if idxs[i].freq != longest_freq:
                 idxs[i] = tools_trim.index(idxs[i], longest_freq)
+        if any(len(i) == 0 for i in idxs):
+            return empty_idxs
 
     if ignore_tz is True and len(distinct_tzs) != 1:
         # set timezone to none for all values
@@ -162,7 +169,7 @@ def indices_flex(
     values = sorted(values)
 
     if len(values) == 0:
-        return tuple([pd.DatetimeIndex([]) for _ in idxs])
+        return empty_idxs
 
     idxs_out = []
     for i in range(len(idxs)):
@@ -171,7 +178,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From f7cfbfe4caf0df89607c62d65285fe3762d535a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:00 +0000
Subject: [PATCH 22/38] fix: name and dtype are kept when turning hourly values
 timezone-agnostic

---
 portfolyo/tools/tzone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..7c37833 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,7 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    idx_in = idx_out.where(
+        idx_out.isin(partly.index), idx_out - pd.Timedelta(hours=1)
+    )
+    return partly.loc[idx_in].set_axis(idx_out)
-- 
2.43.0


From 3de64d04f08c5583ac38ea5f88d6da7c3d00b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 23/38] fix: peak functions around DST-transitions; refuse
 seconds and empty weekdays

---
 portfolyo/tools/peakfn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..85b481a 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -9,7 +9,6 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
-from . import right as tools_right
 
 PeakFunction = Callable[[pd.DatetimeIndex], pd.Series]
 
@@ -62,7 +61,7 @@ def factory(
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
     weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
     must_check_date = 0 < weekday_count < 7
-    if not must_check_time and not must_check_date:
+    if weekday_count == 0 or (not must_check_time and not must_check_date):
         raise ValueError(
             "Input specifies no special cases; all time periods included or all time periods "
             f"excluded; got {peak_left}-{peak_right} on {weekday_count} days of the week."
@@ -71,6 +70,10 @@ def factory(
     # Find longest frequency for which peak and offpeak can be calculated
     if not must_check_time:
         longest_freq = "D"
+    elif any(t.second or t.microsecond for t in (peak_left, peak_right)):
+        raise ValueError(
+            f"Input specifies times that are not 'round' quarter-hours; got {peak_left} and {peak_right}."
+        )
     elif peak_left.minute == 0 and peak_right.minute == 0:
         longest_freq = "h"
     elif peak_left.minute % 15 == 0 and peak_right.minute % 15 == 0:
@@ -85,7 +88,8 @@ def factory(
 
     def filter_time(i: pd.DatetimeIndex) -> np.ndarray:
         time_left = i.time
-        time_right = tools_right.index(i).time
+        # wall time at end of the period, also if it ends at a DST-transition
+        time_right = (i.tz_localize(None) + i.freq).time
         mask = True
         if peak_left != MIDNIGHT:
             cond1 = time_left >= peak_left
-- 
2.43.0


From 043b42c12c70dd1c2fc750a74eab5dd87e9771dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 24/38] fix: unknown (nan) values stay unknown when upsampling

---
 portfolyo/tools/changefreq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index 5bb7044..0148e16 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -115,7 +115,7 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     additional_stamp = tools_right.stamp(s.index[-1], s.index.freq)
     df.loc[additional_stamp, :] = None
     # ... then do upsampling ...
-    df2 = df.resample(freq, offset=offset).asfreq().ffill()  # duplicate value
+    df2 = df.resample(freq, offset=offset).ffill()  # duplicate value (also if it's nan)
     # ... and then remove final row (and turn back into series).
     return df2.iloc[:-1, 0].rename(s.name)
 
-- 
2.43.0


From f2492fec7e8a88dd781384b36e48cf028739ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 25/38] fix: hedging if only one of the timeseries has units

---
 portfolyo/tools/hedge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/hedge.py b/portfolyo/tools/hedge.py
index c49dbf0..e298cb9 100644
--- a/portfolyo/tools/hedge.py
+++ b/portfolyo/tools/hedge.py
@@ -108,7 +108,9 @@ def hedge(
     wout, pout = dfout["w"], dfout["p"]
 
     # Handle possible units.
-    if wunits or punits:
-        wout, pout = wout.astype(f"pint[{wunits}]"), pout.astype(f"pint[{punits}]")
+    if wunits is not None:
+        wout = wout.astype(f"pint[{wunits}]")
+    if punits is not None:
+        pout = pout.astype(f"pint[{punits}]")
 
     return wout, pout
-- 
2.43.0


From d5f61c9153b70cbc7c4371c7e3aeb5b0f84886a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 26/38] fix: conversion between timeseries and peak/offpeak
 values (start-of-day, missing periods, swapped peak and offpeak, summable
 values)

---
 portfolyo/tools/peakconvert.py | 65 +++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..2d7eae8 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -14,23 +14,23 @@ from . import wavg as tools_wavg
 BPO = ["base", "peak", "offpeak"]
 
 
+def _period_starts(i: pd.DatetimeIndex, periods: pd.DatetimeIndex) -> pd.DatetimeIndex:
+    """For each timestamp in ``i``, the start of the delivery period it belongs to."""
+    return periods[periods.searchsorted(i, side="right") - 1]
+
+
 def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
-    # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
-    elif freq == "QS":
-        groups.append(i.quarter)
-    elif freq == "YS":
-        pass
-    else:
+    if freq not in ["D", "MS", "QS", "YS"]:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
+    # Grouping due to delivery period.
+    groups = [_period_starts(i, tools_changefreq.index(i, freq))]
+
     # Add grouping due to peak.
     if peak_fn is not None:
         groups.append(peak_fn(i))
@@ -118,7 +118,7 @@ def complete_bpoframe(
 
 
 def _tseries2po(
-    s: pd.Series, peak_fn: tools_peakfn.PeakFunction, is_summable: bool
+    s: pd.Series, is_peak: pd.Series, duration: pd.Series, is_summable: bool
 ) -> pd.Series:
     """
     Aggregate timeseries with varying (float) values to a single base, peak and offpeak
@@ -142,8 +142,6 @@ def _tseries2po(
     offpeak    20.311204
     dtype: float64
     """
-    is_peak = peak_fn(s.index)
-    duration = tools_duration.index(s.index).pint.m  # floats
     if is_summable:
         return pd.Series(
             {
@@ -220,14 +218,22 @@ def tseries2poframe(
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
     # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
-        lambda s: _tseries2po(s, peak_fn, is_summable)
-    )
+    ispeak = peak_fn(s.index)  # raises error if frequency not short enough
+    if len(s) == 0:  # no full periods
+        dfout = pd.DataFrame({"peak": sin, "offpeak": sin})
+    else:
+        duration = tools_duration.index(s.index).pint.m  # floats
+        periods = tools_changefreq.index(s.index, freq).rename(s.index.name)
+        vals = {
+            ts: _tseries2po(s, ispeak[s.index], duration[s.index], is_summable)
+            for ts, s in sin.groupby(_period_starts(s.index, periods))
+        }
+        dfout = pd.DataFrame([vals[ts] for ts in periods], periods)
 
     # Handle possible units.
     if units is not None:
-        sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+        dfout = dfout.astype(f"pint[{units}]")
+    return dfout  # peak, offpeak as columns
 
 
 def poframe2tseries(
@@ -281,17 +287,23 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
+    # Spread summable values over the peak (offpeak) hours in each period.
+    if is_summable:
+        b = tools_duration.index(df.index).pint.m  # as float
+        p = tools_peakfn.peak_duration(df.index, peak_fn).pint.m  # as float
+        df = pd.DataFrame({"peak": df["peak"] / p, "offpeak": df["offpeak"] / (b - p)})
+
     # Stretch the dataframe to higher frequency
+    df2 = tools_changefreq.averagable(df, freq)
+    ispeak = peak_fn(df2.index)  # will raise error if frequency not short enough
+    s = df2["peak"].where(ispeak, df2["offpeak"])
     if is_summable:
-        df2 = tools_changefreq.summable(df, freq)
-    else:
-        df2 = tools_changefreq.averagable(df, freq)
-    df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
+        s = s * tools_duration.index(df2.index).pint.m  # as float
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    return s.rename(None)
 
 
 # def tseries2tseries(
@@ -421,6 +433,9 @@ def poframe2poframe(
             " The result will be uniform at the frequency of the original frame ``df``."
         )
 
-    upsampled = poframe2tseries(df, peak_fn, "h", is_summable)
+    try:
+        upsampled = poframe2tseries(df, peak_fn, "h", is_summable)
+    except ValueError:  # peak_fn might need quarterhourly index
+        upsampled = poframe2tseries(df, peak_fn, "15min", is_summable)
     downsampled = tseries2poframe(upsampled, peak_fn, freq, is_summable)
     return downsampled
-- 
2.43.0


From b8a516a4feb64c0e635d6d081d2d83cfc88acd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 27/38] fix: mapping hourly values with start-of-day other than
 midnight, and revenues, to another year

---
 portfolyo/tools/changeyear.py  | 4 +++-
 portfolyo/tools2/changeyear.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..addf2d0 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -286,7 +286,9 @@ def _map_index_to_index_hourlyandshorter(
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
     # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    # (not with .floor("D"), because days might not start at midnight)
+    day_number = idx_target_d.searchsorted(idx_target, side="right") - 1
+    idx_target_part1 = idx_target_d[day_number]
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..0164e3a 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -69,9 +69,9 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
         df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
+        df = df.div(tools.duration.index(df.index), axis=0)  # Make averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        df2 = df2.mul(tools.duration.index(df2.index), axis=0)  # Make summable again
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From 147924ab9bf7cd84bd271b8ba9f57e55f44ee3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:05 +0000
Subject: [PATCH 28/38] fix: adding portfolio states whose indices overlap
 partially, across a clock change

---
 portfolyo/core/pfstate/arithmatic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfstate/arithmatic.py b/portfolyo/core/pfstate/arithmatic.py
index dec9526..08c48d9 100644
--- a/portfolyo/core/pfstate/arithmatic.py
+++ b/portfolyo/core/pfstate/arithmatic.py
@@ -159,8 +159,13 @@ class Add:
         # . The following line works... but not if volume == 0.
         # unsourcedprice = (pfs1.unsourced + pfs2.unsourced).price
         # . Therefore, use weighted average.
-        values = pd.DataFrame({"s": pfs1.unsourcedprice.p, "o": pfs2.unsourcedprice.p})
-        weights = pd.DataFrame({"s": pfs1.unsourced.q, "o": pfs2.unsourced.q})
+        idx = offtakevolume.index  # timestamps that are present in both pfstates
+        values = pd.DataFrame(
+            {"s": pfs1.unsourcedprice.p.loc[idx], "o": pfs2.unsourcedprice.p.loc[idx]}
+        )
+        weights = pd.DataFrame(
+            {"s": pfs1.unsourced.q.loc[idx], "o": pfs2.unsourced.q.loc[idx]}
+        )
         unsourcedprice = create.flatpfline(
             {"p": tools.wavg.dataframe(values, weights, axis=1)}
         )
-- 
2.43.0


From bd7fa8bfae7424beb44e60c104ba5d18d2b48eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 29/38] fix: overviews with 1 or 2 timestamps repeated the
 entire timeseries

---
 portfolyo/core/shared/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 91332f8..9bb94c7 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -44,7 +44,7 @@ def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
     if len(df.index) > num_of_ts:
         i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
         inter = pd.DataFrame([[".."] * len(df.columns)], [".."], df.columns)
-        df = pd.concat([df.iloc[:i1], inter, df.iloc[-i2:]])
+        df = pd.concat([df.iloc[:i1], inter, df.iloc[len(df.index) - i2 :]])
     return df
 
 
-- 
2.43.0


From 6dc6cbe1e778d4715d1ebe64ec8e2339adc9f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 30/38] fix: keyword arguments when exporting to excel

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From c6516fd31b8625e2aa48f9720f18cc526907e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 31/38] fix: all levels are shown in the dataframe if the
 columns are given as an iterator

---
 portfolyo/core/pfline/dataframeexport.py | 1 +
 portfolyo/core/pfstate/pfstate.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index 4d8c55b..4c839ba 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -69,6 +69,7 @@ class Nested:
         -------
         pd.DataFrame
         """
+        cols = list(cols) if cols is not None else None  # also if it's an iterator
         flatdf = self.flatten().dataframe(cols, has_units)
 
         if childlevels == 0:
diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index e687248..ccf9b03 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -172,6 +172,7 @@ class PfState(
         -------
         pd.DataFrame
         """
+        cols = list(cols) if cols is not None else None  # also if it's an iterator
         dfs = []
         for part in ("offtakevolume", "pnl_cost", "sourced", "unsourced"):
             childlevels = 0 if part == "pnl_cost" else -1  # always flatten pnl_cost
-- 
2.43.0


From 49f4d7923c679499b0eb2247d85d18642b626c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 32/38] fix: stepped plots showed values around, instead of
 during, their delivery periods

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..0c5599c 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -161,7 +161,7 @@ def plot_timeseries_as_step(
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
 
-    ax.step(splot.index, splot.values, where="mid", **kwargs)
+    ax.step(splot.index, splot.values, where="post", **kwargs)
     delta = s.index.right - s.index
     set_data_labels(ax, s.index + 0.5 * delta, s.values, labelfmt, True)
     ax.autoscale()
-- 
2.43.0


From ba9848d2b7389ba720a1c97e6f75f7f6886b48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 33/38] fix: plotting quarters and years that start in other
 months

---
 portfolyo/tools/visualize/categories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index f31e2c4..497aabe 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -58,7 +58,9 @@ class Categories:
 
 
 def create_categories(s: pd.Series) -> Iterable[Category]:
-    if s.index.freq == "YS":
+    freq = s.index.freq.freqstr  # can also start in other month, e.g. 'QS-FEB'
+
+    if freq.startswith("YS"):
         prios = priolist(len(s))
 
         def category(i, ts, y):
@@ -66,7 +68,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             short_label = label[-2:] if i > 0 else label
             return Category(i, y, ts, label, short_label, prios[i])
 
-    elif s.index.freq == "QS":
+    elif freq.startswith("QS"):
 
         def category(i, ts, y):
             num = ts.quarter
@@ -75,7 +77,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             label = short_label = f"Q{num}\n{year}"
             return Category(i, y, ts, label, short_label, prio)
 
-    elif s.index.freq == "MS":
+    elif freq == "MS":
         prios = priolist(12)
 
         def category(i, ts, y):
-- 
2.43.0


From babea15f153c03b4a438f3498e95ce5b73f9e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 34/38] fix: plotting timeseries in which some of the values
 are missing

---
 portfolyo/tools/visualize/categories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index 497aabe..47a5e92 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -38,7 +38,7 @@ class Categories:
         if not isinstance(values[0], tools_unit.Q_):
             return np.array(values)
         unit = values[0].units
-        magnitudes = [value.to(unit).m for value in values]
+        magnitudes = np.array([value.to(unit).m for value in values])
         return tools_unit.PA_(magnitudes, unit)
 
     def x(self, max_count: int = None) -> Iterable[int]:
-- 
2.43.0


From 9ab3a57c36dcdd9c2a1334bb17a23991516498e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:17 +0000
Subject: [PATCH 35/38] fix: turn every dimensionless value into a float, also
 if its unit is e.g. ct/Eur

---
 portfolyo/tools/unit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/unit.py b/portfolyo/tools/unit.py
index b4824a8..a286ce5 100644
--- a/portfolyo/tools/unit.py
+++ b/portfolyo/tools/unit.py
@@ -94,13 +94,13 @@ def defaultunit(
     elif isinstance(val, float):
         return val
     elif isinstance(val, pint.Quantity):
-        if val.units == ureg.Unit("dimensionless"):
-            return val.magnitude
+        if val.dimensionless:
+            return val.to("dimensionless").magnitude
         return val.to_base_units()
     elif isinstance(val, pd.Series):
         if isinstance(val.dtype, pint_pandas.PintType):
-            if val.pint.units == ureg.Unit("dimensionless"):
-                return val.astype(float)
+            if val.pint.dimensionless:
+                return val.pint.to("dimensionless").pint.magnitude.astype(float)
             return val.pint.to_base_units()
         elif pd.api.types.is_object_dtype(val.dtype) and isinstance(val.iloc[0], Q_):
             try:
-- 
2.43.0


From 7c455b832415f9830f6651a7f44a6fad1e6e3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:37 +0000
Subject: [PATCH 36/38] fix: quarters shorter than 89 days because of a clock
 change are recognised

---
 portfolyo/tools/freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index c2f528e..27cc5f8 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -328,7 +328,7 @@ def from_tdelta(tdelta: pd.Timedelta) -> str:
         return "D"
     elif pd.Timedelta(days=27) <= tdelta <= pd.Timedelta(days=32):
         return "MS"
-    elif pd.Timedelta(days=89) <= tdelta <= pd.Timedelta(days=93):
+    elif pd.Timedelta(days=88) <= tdelta <= pd.Timedelta(days=93):
         return "QS"
     elif pd.Timedelta(days=364) <= tdelta <= pd.Timedelta(days=367):
         return "YS"
-- 
2.43.0


From c266cc421983c8c1b287314e508b01cc588f76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:37 +0000
Subject: [PATCH 37/38] fix: quarters and years that start in other months,
 e.g. QS-FEB and YS-APR

---
 portfolyo/tools/isboundary.py  | 33 +++++++++++++++++----------------
 portfolyo/tools/round.py       | 13 +++----------
 portfolyo/tools/standardize.py | 15 ++++++++-------
 3 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index 498bafe..b8df412 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -27,8 +27,10 @@ def is_year_start(i: pd.DatetimeIndex) -> np.ndarray:
     ...
 
 
-def is_year_start(i: pd.Timestamp | pd.DatetimeIndex) -> bool | np.ndarray:
-    return (i.day == 1) & (i.month == 1)
+def is_year_start(
+    i: pd.Timestamp | pd.DatetimeIndex, first_month: int = 1
+) -> bool | np.ndarray:
+    return (i.day == 1) & (i.month == first_month)
 
 
 @overload
@@ -41,8 +43,10 @@ def is_quarter_start(i: pd.DatetimeIndex) -> np.ndarray:
     ...
 
 
-def is_quarter_start(i: pd.Timestamp | pd.DatetimeIndex) -> bool | np.ndarray:
-    return (i.day == 1) & ((i.month - 1) % 3 == 0)
+def is_quarter_start(
+    i: pd.Timestamp | pd.DatetimeIndex, first_month: int = 1
+) -> bool | np.ndarray:
+    return (i.day == 1) & ((i.month - first_month) % 3 == 0)
 
 
 @overload
@@ -70,12 +74,15 @@ def is_X_start(i: pd.DatetimeIndex) -> np.ndarray:
 
 
 def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarray:
-    if freq == "MS":
+    offset = pd.tseries.frequencies.to_offset(freq)
+    if offset.n != 1:
+        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+    elif isinstance(offset, pd.offsets.MonthBegin):
         return is_month_start(i)
-    elif freq == "QS":
-        return is_quarter_start(i)
-    elif freq == "YS":
-        return is_year_start(i)
+    elif isinstance(offset, pd.offsets.QuarterBegin):  # incl. 'QS-FEB' etc.
+        return is_quarter_start(i, offset.startingMonth)
+    elif isinstance(offset, pd.offsets.YearBegin):  # incl. 'YS-FEB' etc.
+        return is_year_start(i, offset.month)
     else:
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
@@ -109,14 +116,8 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
         return ts.minute == 0 and _is_minute_start(ts)
     elif freq == "D":
         return ts.time() == start_of_day
-    elif freq == "MS":
-        return (ts.time() == start_of_day) & is_month_start(ts)
-    elif freq == "QS":
-        return (ts.time() == start_of_day) & is_quarter_start(ts)
-    elif freq == "YS":
-        return (ts.time() == start_of_day) & is_year_start(ts)
     else:
-        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+        return (ts.time() == start_of_day) & is_X_start(ts, freq)
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 10219fc..c767cab 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -168,13 +168,6 @@ def _offset(freq: str, future: int):
         return pd.Timedelta(hours=future)
     elif freq == "D":
         return pd.Timedelta(days=future)
-    elif freq == "MS":
-        return pd.offsets.MonthBegin(future)
-    elif freq == "QS":
-        return pd.offsets.QuarterBegin(future, startingMonth=1)
-    elif freq == "YS":
-        return pd.offsets.YearBegin(future)
-    else:
-        raise ValueError(
-            f"Parameter ``freq`` must be one of {tools_freq.ALLOWED_FREQUENCIES_DOCS}; got {freq}."
-        )
+    else:  # MonthBegin, QuarterBegin or YearBegin
+        tools_freq.assert_freq_valid(freq)
+        return future * pd.tseries.frequencies.to_offset(freq)
diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 031745b..61ebee5 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -6,6 +6,7 @@ import pandas as pd
 from pytz import AmbiguousTimeError, NonExistentTimeError
 
 from . import freq as tools_freq
+from . import isboundary as tools_isboundary
 from . import right as tools_right
 from . import righttoleft as tools_righttoleft
 from . import tzone as tools_tzone
@@ -227,13 +228,13 @@ def assert_index_standardized(i: pd.DatetimeIndex, __right: bool = False):
 
     # Check day-of-X.
     if tools_freq.up_or_down(freq, "D") > 0:
-        if freq == "MS":
-            period, not_ok = "month", ~i.is_month_start
-        elif freq == "QS":
-            period, not_ok = "quarter", ~i.is_quarter_start
-        elif freq == "YS":
-            period, not_ok = "year", ~i.is_year_start
-        if any(not_ok):
+        if isinstance(freq, pd.offsets.MonthBegin):
+            period = "month"
+        elif isinstance(freq, pd.offsets.QuarterBegin):
+            period = "quarter"
+        else:
+            period = "year"
+        if any(not_ok := ~tools_isboundary.is_X_start(i, freq)):
             raise AssertionError(
                 f"In an index with {period}ly values, all timestamps (all {period}s) should"
                 f" fall on the first day of a {period}; found {i[not_ok]}."
-- 
2.43.0


From 5dbb9128062f2b1b605431176f3768eb19d3136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:53 +0000
Subject: [PATCH 38/38] fix: weighted averages that are all undefined, keep
 their unit

---
 portfolyo/tools/wavg.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index b9a34e1..c049562 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -2,6 +2,7 @@ from typing import Iterable, Mapping, overload
 
 import numpy as np
 import pandas as pd
+import pint_pandas
 
 from . import unit as tools_unit
 
@@ -483,11 +484,9 @@ def values_areuniform(series: pd.Series, mask: Iterable = None) -> bool:
 
 def concatseries(series: Iterable[pd.Series], refindex: Iterable = None) -> pd.Series:
     """Concatenate some series, and try to make it a pint-series if possible."""
-    dtypes = set()
-    for s in series:
-        if s.isna().all():
-            continue
-        dtypes.add(s.dtype)
+    dtypes = {s.dtype for s in series if not s.isna().all()}
+    if not dtypes:  # only missing values; keep their unit (if any)
+        dtypes = {s.dtype for s in series if isinstance(s.dtype, pint_pandas.PintType)}
     if len(dtypes) == 1:
         dtype = dtypes.pop()
         series = [s.astype(dtype) for s in series]
-- 
2.43.0

