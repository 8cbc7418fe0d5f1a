From d177e54097f5db5354c509b66b2e2768d7fcac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 01/50] fix: cumulate one amount per cell in development order

Cumulative triangles were built by cumulating raw records in the order they
appear, so unsorted records gave wrong values and several records for the same
origin and dev were counted more than once.
---
 trikit/triangle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..211d69d 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -461,10 +461,9 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        # Cumulate one amount per origin and dev, in development order.
+        data = data.groupby([origin, dev], as_index=False)[value].sum()
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
-- 
2.43.0


From 1009e93b123b86c589ec7820dcabef0fdb87805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 02/50] fix: aggregate records before flooring first
 development period amounts

The floor was applied to each record, so a negative component of a positive
cell was replaced by 1 and the cell no longer equalled the sum of its records.
---
 trikit/triangle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 211d69d..98b6630 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,10 +45,9 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]]
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
-- 
2.43.0


From bbfd51fba4fc3473c878b69ccbdb61583bd9c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 03/50] fix: difference cumulative records in development order

totri(data_format="cum") differenced records in the order they appear, so
unsorted records gave wrong increments.
---
 trikit/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 98b6630..d0e7b44 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1372,7 +1372,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
+            df = data.groupby([origin, dev], as_index=False)[value].sum()
+            df = df.rename({value: "cum"}, axis=1)
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
             df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
-- 
2.43.0


From 036a657ddc309a08056d58603445459d1003f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 04/50] fix: treat records without an amount as missing cells

NaN amounts were summed to zero in tabular data, double counted in cumulative
tabular data, and dropped every later increment of an origin in cumulative
triangle-shaped data.
---
 trikit/triangle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index d0e7b44..2feb596 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,7 +45,7 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        data2 = data[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_])
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -461,6 +461,7 @@ class _BaseCumTriangle(_BaseTriangle):
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         # Cumulate one amount per origin and dev, in development order.
+        data = data.dropna(subset=[value])
         data = data.groupby([origin, dev], as_index=False)[value].sum()
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
@@ -1357,8 +1358,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
+            incrtri = data.ffill(axis=1)
+            incrtri = incrtri.diff(axis=1).fillna(incrtri).where(data.notna())
             incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
@@ -1372,7 +1373,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.groupby([origin, dev], as_index=False)[value].sum()
+            df = data.dropna(subset=[value])
+            df = df.groupby([origin, dev], as_index=False)[value].sum()
             df = df.rename({value: "cum"}, axis=1)
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-- 
2.43.0


From c1bba436a620fdd441f41fe8044d36115cfa6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 05/50] fix: support origin, dev and value column names other
 than the defaults

to_tbl, latest and to_cum looked for the default names, so any triangle built
with totri(origin=..., dev=..., value=...) could not be used further.
---
 trikit/estimators/bootstrap.py |  3 ++-
 trikit/triangle.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..a59cd54 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).set_axis(["origin", "dev", "value"], axis=1)
+        dfi = dfi.drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 2feb596..79a1993 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -209,9 +209,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -346,7 +346,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -431,7 +431,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -964,7 +964,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1048,7 +1048,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From 0def34df63020cd9e5f287f9ffddbfd5197c8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 06/50] fix: take faceted view y ticks from the axis

Parsing formatted tick labels raised ValueError once a shared axis had been
labelled, and dropped the axis offset for large amounts.
---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 79a1993..8a8bfaa 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1075,9 +1075,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [jj for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From 169eaa374ee6c7e00c75148c863e01f42feaa073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 07/50] fix: ignore field names for triangle-shaped data

totri documents origin, dev and value as ignored when data_shape="triangle",
but names other than the defaults, or a named index, raised an error.
---
 trikit/triangle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a8bfaa..154f38d 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1349,16 +1349,19 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
+        # Field names do not apply to triangle-shaped data.
+        origin, dev, value = "origin", "dev", "value"
+
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
-            incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = data.rename_axis("origin").reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
             incrtri = data.ffill(axis=1)
             incrtri = incrtri.diff(axis=1).fillna(incrtri).where(data.notna())
-            incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = incrtri.rename_axis("origin").reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
-- 
2.43.0


From ee2bf36ccd1e2f09f8ae1fd6f2bba32055f9c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 08/50] fix: reject unknown data_format for tabular data

An unknown data_format was silently read as incremental.
---
 trikit/triangle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 154f38d..f9d4f40 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1366,7 +1366,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
         else:
-            raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
 
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
@@ -1380,8 +1380,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
             df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
-        else:
+
+        elif data_format.lower().strip().startswith("i"):
             df = data
+
+        else:
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
-- 
2.43.0


From fc403a28c7338bbb6668b89a2b6322b43643cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 09/50] fix: leave excluded link ratios out of weighted
 averages

a2aind had no effect on the weighted averages, including the default
all-weighted selection of base_cl and boot_cl.
---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index f9d4f40..3fb4893 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -821,6 +821,10 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = (final_cell_indx - duration) if \
                             (final_cell_indx - duration) >= 0 else 0
 
+                    # Excluded link ratios have no influence on the average.
+                    t_ind = self.a2aind.iloc[:, col].reindex(self.index).fillna(0)
+                    t_ic_1, t_ic_2 = t_ic_1 * t_ind, t_ic_2 * t_ind
+
                     # Divide sum of t_ic_2 by t_ic_1.
                     sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
                     sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
-- 
2.43.0


From 1220d027a90646ab21a3c07a3f9d08d11811e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 10/50] fix: medial average of tied or fully excluded link
 ratios

All copies of the min and max were dropped, leaving NaN for ratios such as
[1, 1, 2, 2], and an empty set of ratios raised IndexError.
---
 trikit/triangle.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 3fb4893..f8e4d06 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -549,7 +549,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
@@ -559,16 +562,9 @@ class _BaseCumTriangle(_BaseTriangle):
             avg = (w * arr_all).sum() / w.sum()
 
         else:
-            medial_indicies = np.where(
-                np.logical_and(arr_all != arr_all.min(), arr_all != arr_all.max())
-                )
-            arr = arr_all[medial_indicies]
-            w = w[medial_indicies]
-
-            if arr.shape[0] == 0:
-                avg = np.NaN
-            else:
-                avg = (w * arr).sum() / w.sum()
+            # Drop a single occurrence of the min and of the max.
+            arr, w = arr_all[1:-1], w[1:-1]
+            avg = (w * arr).sum() / w.sum()
 
         return(avg)
 
-- 
2.43.0


From 80874eaed6effe46e58eaa8ba2bbe9101449af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 11/50] fix: weighted averages of fully observed development
 periods

a2a_avgs raised IndexError when a development period after the first had an
amount for every origin.
---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index f8e4d06..9a6ef0f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -808,9 +808,7 @@ class _BaseCumTriangle(_BaseTriangle):
 
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
                     # Find first NaN value in t_ic_2.
-                    first_nan_year = t_ic_2.index[t_ic_2.count():][0]
-                    first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
-                    final_cell_indx = first_nan_indx
+                    final_cell_indx = t_ic_2.count()
                     if duration == 0:
                         first_cell_indx = 0
                     else:
-- 
2.43.0


From 5f29cf18282c05ae8fccd996b7419f221dec0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 12/50] fix: apply the tail factor to the final development
 period

Its label was extrapolated from the spacing of the other periods, which is
wrong for unevenly spaced periods and fails for two development periods.
---
 trikit/estimators/base.py | 8 +++-----
 trikit/estimators/mack.py | 3 +--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..d503b4a 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -104,8 +104,7 @@ class BaseChainLadder:
                         )
 
                 # Append tail factor to sel.
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                sel.loc[self.tri.devp.max()] = tail
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
@@ -170,10 +169,9 @@ class BaseChainLadder:
         -------
         pd.Series
         """
-        # Determine index for tail factor.
+        # The tail factor applies to the final development period.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..4e270ce 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -267,8 +267,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(ldfs)
 
 
-- 
2.43.0


From a0ad7809af9a9ed014f89db2d325d2db4a9faa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 13/50] fix: develop each origin with the factor for its own
 maturity

Factors were matched to origins by position, so the ultimate was wrong (and
inconsistent with the squared triangle) for an origin missing its latest
amounts, and triangles with fewer origins than periods failed.
---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index d503b4a..fd90287 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -217,7 +217,7 @@ class BaseChainLadder:
         pd.Series
         """
         ultimates = pd.Series(
-            data=self.tri.latest_by_origin.values * cldfs.values[::-1],
+            data=self.tri.latest_by_origin.values * cldfs.loc[self.tri.maturity.values].values,
             index=self.tri.index, name="ultimate"
             )
         return(ultimates.astype(float).sort_index())
-- 
2.43.0


From 2264d2db5edb78246abde73e2879ea26f705d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 14/50] fix: leave the caller's sel unchanged

base_cl appended the tail factor to the Series passed as sel, so passing the
same Series again raised ValueError.
---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index fd90287..48ad8a1 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,7 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
+                # Append tail factor to a copy of sel.
+                sel = sel.copy()
                 sel.loc[self.tri.devp.max()] = tail
 
             elif isinstance(sel, (Sequence, np.ndarray)):
-- 
2.43.0


From a7970490ef5a2f2d1b16a5f53879624aa615a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 15/50] fix: bootstrap triangles whose first development period
 is not 1

The first increment of each simulated origin was taken to be at dev 1, so it
was lost for any other labels: reserves of the amw09 dataset were off by a
factor of five.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index a59cd54..4d2675e 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -598,7 +598,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From 58697e42c17a067b701205a55e2f50051d8bbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 16/50] fix: resample cells with a negative fitted increment

Residuals are scaled by sqrt(abs(m)) but were applied with sqrt(m), which is
NaN wherever a development factor is below 1.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 4d2675e..0dff792 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -488,7 +488,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From ab2c0f7dffe9cd52b149273f1937f96bd72bc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 17/50] fix: accept numpy integers as bootstrap seed

random_state=np.int64(...) raised UnboundLocalError.
---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 0dff792..93faeae 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -464,7 +464,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
@@ -654,7 +654,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         """
         # Initialize pseudo random number generator.
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
-- 
2.43.0


From 2cfa7c0530cb6227fa8904056809c0c54d7747a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 18/50] fix: use np.random when no bootstrap random_state is
 given

As documented, so that np.random.seed makes boot_cl reproducible.
---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 93faeae..65b2689 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -469,7 +469,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random
 
         sampling_dist = sampling_dist.flatten()
         fti = fitted_tri_incr.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -659,7 +659,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random
 
         # Parameterize distribution for the incorporation of process variance.
         if procdist.strip().lower() == "gamma":
-- 
2.43.0


From d4b30d27b2869f7b05fa3e9f9bf14c6798127df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 19/50] fix: leave reserve_dist unchanged by hist

hist added its facet order column to the result's reserve_dist.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 65b2689..5b78017 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1328,7 +1328,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy(deep=True)
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From 8af350d1540f916f33d851458cefc0d2f1e37b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 20/50] fix: bootstrap plot

plot passed an unsupported argument to the quantile formatter and to the
grouped quantile, so it always raised.
---
 trikit/estimators/bootstrap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 5b78017..1031f14 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1070,11 +1070,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
             dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+                "quantile", q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
             dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+                "quantile", q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
@@ -1200,7 +1200,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        qtls, qtlhdrs = self._qtls_formatter(q=q, two_sided=True)
+        qtls, qtlhdrs = self._qtls_formatter(q=[(1 - q) / 2., (1 + q) / 2.])
         data = self._bs_data_transform(qtls, qtlhdrs).dropna(how="any", subset=["loss"])
 
         with sns.axes_style(axes_style):
-- 
2.43.0


From a95cc2d7c3ee5ccd8fd0ee01ed77d488709d6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 21/50] fix: bootstrap residuals_detail

scipy returns a scalar mode for one-dimensional data; indexing it raised.
---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 1031f14..9b03d6b 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -944,7 +944,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -957,7 +957,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From 2c3ab1f7bf48ea7622c0e4106cd94ab3677485c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 22/50] fix: y axis limit of exhibits for any largest amount

_get_yticks raised for amounts that are a power of ten, at most 1 or above
1e10, so the exhibits of such triangles could not be drawn.
---
 trikit/estimators/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 48ad8a1..e3a6721 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -345,12 +345,10 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
-        x_div = ref_divs[div_index]
+        x_div = np.power(10., np.floor(np.log10(x))) if x > 0 else 1.
 
         # Find upper limit for y-axis given origin_max_val.
-        yuls_seq = x_div * np.arange(1, 11)
+        yuls_seq = x_div * np.arange(1, 12)
         x_yuls = yuls_seq - x
         yul = yuls_seq[np.where(x_yuls > 0)[0].min()]
         y_ticks = np.linspace(0, yul, num=5)
-- 
2.43.0


From 7db5dd6bbad1f56c75aa0e74ef70d0d3a0738db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 23/50] fix: ordinal suffix of the 11th, 12th and 13th
 percentiles

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index e3a6721..a174622 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -678,7 +678,8 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii in ("11", "12", "13") else ii + self.dsuffix[ii[-1]]
+                for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From 5ba460c1c77d5a992790e7b1af8f4e67dc5268e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 24/50] fix: mack plot

plot used the development path data in place of the density data, so it
always raised.
---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 4e270ce..16e42ba 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -903,7 +903,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
-- 
2.43.0


From 6d37968a24a8ab0d0d1d5b7ac2218a5f95ddfc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 25/50] fix: mack diagnostics

diagnostics looked up a devp column that did not exist, so it always raised.
---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 16e42ba..0bd930e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -975,7 +975,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dfdens = dfdens_all[(dfdens_all.origin == "total")]
         dfresid0 = self._residuals_by_devp()
         dfresid1 = self._residuals_by_origin()
-        cl_data = pd.melt(self.trisqrd, var_name="dev", ignore_index=False).reset_index(
+        cl_data = pd.melt(self.trisqrd, var_name="devp", ignore_index=False).reset_index(
             drop=False).rename({"index": "origin"}, axis=1)
         grps = cl_data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.tri.origins]
-- 
2.43.0


From cf03b086395e46274ee26315ea134f16f810e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 26/50] fix: variance of mack standardized residuals

The divisor n - 1 was written without parentheses, so 1 was subtracted from
the variance: residuals depended on the unit of the amounts and small ones
became NaN.
---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0bd930e..d531960 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -568,7 +568,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -590,7 +590,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
-- 
2.43.0


From afe13035a8e7e668fd82c898d204ce0e58405eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 27/50] fix: total mack standard error for alpha other than 1

The covariance term divided the variance parameter by the column sum, which
is the variance of the development factor for alpha=1 only (Mack 1999).
---
 trikit/estimators/mack.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index d531960..b76487b 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -164,15 +164,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
-- 
2.43.0


From c3276408339019f3a8437555be5bfa019912a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 28/50] fix: mack process error for alpha other than 1

The variance of a single period is proportional to C**(2 - alpha); C was used
for every alpha, so standard errors depended on the unit of the amounts.
---
 trikit/estimators/mack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index b76487b..0703997 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -121,7 +121,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -330,7 +330,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -347,6 +347,10 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            Mack alpha parameter. The process variance of a single period is
+            proportional to :math:`C_{k}^{2-\\alpha}`.
+
         Returns
         -------
         pd.DataFrame
@@ -372,10 +376,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 6534599a04e4889dfc7388d8d9b2866845bc5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 29/50] fix: reflect later a2aind changes in a reused mack
 estimator

The excluded link ratios were cached by the first call.
---
 trikit/estimators/mack.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0703997..ed139fa 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -239,8 +239,7 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        if self._mod_a2aind is None:
-            self._mod_a2aind = self.tri.a2aind.replace(0, np.NaN)
+        self._mod_a2aind = self.tri.a2aind.replace(0, np.NaN)
         return(self._mod_a2aind)
 
 
-- 
2.43.0


From e135185b742521496ff7ecd20306f0c1ef791add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 30/50] fix: calendar year test for unevenly spaced periods

Two unused increments required equal spacing and raised otherwise.
---
 trikit/estimators/mack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index ed139fa..d90f528 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -746,8 +746,6 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From 05c983a9d3b11513bb3571c8dddcc2c2396f8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 31/50] fix: draw losses in the base_cl exhibit

The facets were set up but nothing was plotted in them, and the documented
styling overrides were ignored.
---
 trikit/estimators/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index a174622..d864f7f 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -528,12 +528,15 @@ class BaseChainLadderResult:
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
 
+            huekwargs.update({kk: [kwargs[kk]] * 2 for kk in kwargs})
+
             grid = sns.FacetGrid(
                 data, col="origin", hue="rectype", hue_kws=huekwargs,
                 col_wrap=col_wrap, margin_titles=False, despine=True, sharex=False,
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From 13c13faabff6eb13f5e05c2b7f7e6872c9af6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 32/50] fix: accept the documented hue_kws of the base_cl
 exhibit

Lists of the documented length 2 were ignored with a warning.
---
 trikit/estimators/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index d864f7f..f4b40a8 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -522,8 +522,8 @@ class BaseChainLadderResult:
                 )
 
             if hue_kws is not None:
-                # Determine whether the length of each element of hue_kws is 4.
-                if all(len(hue_kws[i]) == 4 for i in hue_kws):
+                # Determine whether the length of each element of hue_kws is 2.
+                if all(len(hue_kws[i]) == 2 for i in hue_kws):
                     huekwargs.update(hue_kws)
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
-- 
2.43.0


From ea95064eff92f1ca15a0f80568c01c46875f57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 33/50] fix: fill missing actuals in IncrTriangle.to_cum

to_cum left gaps of an origin empty where totri repeats the previous amount,
so the same data gave different estimates.
---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9a6ef0f..e0632c0 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -431,7 +431,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
+        return(totri(self.to_tbl(), tri_type="cum", origin=self.origin, dev=self.dev, value=self.value))
 
 
 
-- 
2.43.0


From 8b8897f8528a4e12d19194bc4d795e63bef11458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 34/50] fix: clvi and triind of triangles missing a first
 amount

Both were cached while totri was still completing the triangle.
---
 trikit/triangle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index e0632c0..f073a23 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1408,4 +1408,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
                 if triind_val == 0:
                     if np.isnan(tri.iat[origin_indx, devp_indx]):
                         tri.iat[origin_indx, devp_indx] = tri.iat[origin_indx, (devp_indx - 1)]
+
+        # Determine again from the completed triangle when next requested.
+        tri._clvi, tri._triind = None, None
     return(tri)
-- 
2.43.0


From 805934d21910296469274c60af8ba05aa333a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 35/50] fix: draw the bootstrap exhibit for q=0

The two coinciding bounds were drawn as one line of double length, which cannot be filled.
---
 trikit/estimators/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 9b03d6b..83188e1 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1032,7 +1032,8 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dfl = dfl.rename({qtlhdrs[0]: "loss"}, axis=1)
         dfu["rectype"] = qtlhdrs[-1]
         dfu = dfu.rename({qtlhdrs[-1]: "loss"}, axis=1)
-        return(pd.concat([dfv, dfl, dfu]).sort_index().reset_index(drop=True))
+        # The bounds coincide for q=0.
+        return(pd.concat([dfv, dfl, dfu]).sort_index().drop_duplicates().reset_index(drop=True))
 
 
     def _get_quantiles_by_devp(self, qtls, qtlhdrs):
-- 
2.43.0


From 456f9c5b069cc7da9510f11f5c23360aad99851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 36/50] fix: lognormal reserve distributions of reserves below
 one

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index d90f528..13a0274 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -184,7 +184,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From d777f3fe438f3536d01be3fe50c8169cada2a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 37/50] fix: run the bootstrap under pandas copy-on-write

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 83188e1..7eebd69 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -707,7 +707,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             np.isnan(dfreserves["latest"].values),
             dfreserves["ultimate"].values, dfreserves["latest"].values
             )
-        dfreserves["reserve"] = np.nan_to_num(dfreserves["reserve"].values, 0)
+        dfreserves["reserve"] = np.nan_to_num(dfreserves["reserve"].values, nan=0)
         return(dfreserves.sort_values(by=["origin", "sim"]).reset_index(drop=True))
 
 
-- 
2.43.0


From 1785a62b070e41264a106a48666214ab3f5400f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 38/50] fix: interrupted or overlapping calls left half built
 views in the triangle

---
 trikit/estimators/mack.py |  6 +++---
 trikit/triangle.py        | 43 ++++++++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 13a0274..2cfc804 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -221,12 +221,12 @@ class MackChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if self._mod_tri is None:
-            self._mod_tri = self.tri.copy(deep=True)
+            mod_tri = self.tri.copy(deep=True)
             for ii in range(self.tri.latest.shape[0]):
                 r_indx = self.tri.latest.loc[ii, "origin"].item()
                 c_indx = self.tri.latest.loc[ii, "dev"].item()
-                self._mod_tri.at[r_indx, c_indx] = np.NaN
-            self._mod_tri = self._mod_tri.dropna(axis=0, how="all").dropna(axis=1, how="all")
+                mod_tri.at[r_indx, c_indx] = np.NaN
+            self._mod_tri = mod_tri.dropna(axis=0, how="all").dropna(axis=1, how="all")
         return(self._mod_tri)
 
 
diff --git a/trikit/triangle.py b/trikit/triangle.py
index f073a23..c46a1c0 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -146,12 +146,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._triind is None:
-            self._triind = pd.DataFrame(columns=self.columns, index=self.index)
-            self._triind.iloc[:, :] = 0
+            triind = pd.DataFrame(columns=self.columns, index=self.index)
+            triind.iloc[:, :] = 0
             for devp in self.clvi.index:
                 last_actual_origin = self.clvi[self.clvi.index == devp].origin.values[0]
                 last_actual_offset = self.clvi[self.clvi.origin == last_actual_origin].row_offset.values[0]
-                self._triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
+                triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
+            self._triind = triind
         return(self._triind)
 
 
@@ -165,12 +166,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._rlvi is None:
-            self._rlvi = pd.DataFrame({
+            rlvi = pd.DataFrame({
                 "dev": self.apply(
                     lambda x: x.last_valid_index(), axis=1).values
                 }, index=self.index)
-            self._rlvi["col_offset"] = \
-                self._rlvi["dev"].map(lambda x: self.columns.get_loc(x))
+            rlvi["col_offset"] = \
+                rlvi["dev"].map(lambda x: self.columns.get_loc(x))
+            self._rlvi = rlvi
         return(self._rlvi)
 
 
@@ -184,12 +186,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._clvi is None:
-            self._clvi = pd.DataFrame({
+            clvi = pd.DataFrame({
                 "origin": self.apply(lambda v: v.last_valid_index(), axis=0).values
                 }, index=self.columns
                 )
-            self._clvi["row_offset"] = \
-                self._clvi["origin"].map(lambda v: self.index.get_loc(v))
+            clvi["row_offset"] = \
+                clvi["origin"].map(lambda v: self.index.get_loc(v))
+            self._clvi = clvi
         return(self._clvi)
 
 
@@ -210,9 +213,9 @@ class _BaseTriangle(pd.DataFrame):
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
                 {0: self.dev, "index": self.origin}, axis=1)
-            self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
+            latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
                 {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
-            self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
+            self._latest = latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
 
@@ -579,8 +582,8 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._a2a is None:
-            self._a2a = self.shift(periods=-1, axis=1) / self
-            self._a2a = self._a2a.dropna(axis=1, how="all").dropna(axis=0, how="all")
+            a2a = self.shift(periods=-1, axis=1) / self
+            self._a2a = a2a.dropna(axis=1, how="all").dropna(axis=0, how="all")
         return(self._a2a.sort_index())
 
 
@@ -703,11 +706,12 @@ class _BaseCumTriangle(_BaseTriangle):
         """
         # Bind reference to last valid index by column for self.tri.a2a.
         if self._a2a_lvi is None:
-            self._a2a_lvi = pd.DataFrame({
+            a2a_lvi = pd.DataFrame({
                 "origin": self.a2a.apply(lambda v: v.last_valid_index(), axis=0).values
             }, index=self.a2a.columns
             )
-            self._a2a_lvi["row_offset"] = self._a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
+            a2a_lvi["row_offset"] = a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
+            self._a2a_lvi = a2a_lvi
         return(self._a2a_lvi)
 
 
@@ -752,7 +756,7 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._a2a_assignment is None:
-            self._a2a_assignment = pd.DataFrame(columns=self.a2a.columns, index=self.a2a.index)
+            assignment = pd.DataFrame(columns=self.a2a.columns, index=self.a2a.index)
             dfmedian = self.a2a.median(axis=0)
             for devp in self.a2a.columns:
                 devp_median = dfmedian[devp]
@@ -760,11 +764,12 @@ class _BaseCumTriangle(_BaseTriangle):
                     origin = self.a2a.index[r_indx]
                     if not np.isnan(a2a):
                         if np.allclose(a2a, devp_median):
-                            self._a2a_assignment.at[origin, devp] = 0
+                            assignment.at[origin, devp] = 0
                         elif a2a > devp_median:
-                            self._a2a_assignment.at[origin, devp] = 1
+                            assignment.at[origin, devp] = 1
                         else:
-                            self._a2a_assignment.at[origin, devp] = -1
+                            assignment.at[origin, devp] = -1
+            self._a2a_assignment = assignment
         return(self._a2a_assignment)
 
 
-- 
2.43.0


From d5038617bd9bdddf00b1043c5ab59eef844a1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 39/50] fix: pickled triangles lost their attributes

---
 trikit/triangle.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index c46a1c0..934c71f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -38,6 +38,13 @@ class _BaseTriangle(pd.DataFrame):
     value: str
         The fieldname in ``data`` representing loss amounts.
     """
+    # Attributes retained by pandas when a triangle is pickled.
+    _metadata = [
+        "origin", "value", "dev", "_latest_by_origin", "_latest_by_devp",
+        "_nbr_cells", "_maturity", "_triind", "_devp", "_latest", "_origins",
+        "_rlvi", "_clvi", "_dof",
+        ]
+
     def __init__(self, data, origin=None, dev=None, value=None):
 
         self._validate(data, origin=origin, dev=dev, value=value)
@@ -461,6 +468,10 @@ class _BaseCumTriangle(_BaseTriangle):
     value: str
         The fieldname in ``data`` representing incremental loss amounts.
     """
+    _metadata = _BaseTriangle._metadata + [
+        "_a2a_assignment", "_ranked_a2a", "_a2a_lvi", "_weights", "_a2aind", "_a2a",
+        ]
+
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         # Cumulate one amount per origin and dev, in development order.
-- 
2.43.0


From 2d1658b512fff17dae08e020c0c0fcb36d213b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 40/50] fix: window methods inherited from pandas raised on
 triangles

---
 trikit/triangle.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 934c71f..e6b65d3 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -83,6 +83,15 @@ class _BaseTriangle(pd.DataFrame):
         self._dof = None
 
 
+    @classmethod
+    def _from_arrays(cls, *args, **kwargs):
+        """
+        Window methods inherited from pandas build their result here: return
+        a DataFrame, as other methods do.
+        """
+        return pd.DataFrame._from_arrays(*args, **kwargs)
+
+
     @staticmethod
     def _validate(data, origin=None, dev=None, value=None):
         """
-- 
2.43.0


From 07ef54f527a9e7ec4e2022783c4b1d78aa1c294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 41/50] fix: averages of triangles with float origin labels
 were wrong

---
 trikit/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index e6b65d3..8bb4126 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -845,8 +845,8 @@ class _BaseCumTriangle(_BaseTriangle):
                     t_ic_1, t_ic_2 = t_ic_1 * t_ind, t_ic_2 * t_ind
 
                     # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_2 = t_ic_2.iloc[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_1 = t_ic_1.iloc[first_cell_indx:final_cell_indx].sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
@@ -870,7 +870,7 @@ class _BaseCumTriangle(_BaseTriangle):
                         final_cell_indx = len(itercol)
                         first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
                     try:
-                        link_ratios = itercol[first_cell_indx:final_cell_indx]
+                        link_ratios = itercol.iloc[first_cell_indx:final_cell_indx]
                         iteravg = iterfunc(link_ratios[link_ratios > 0])
                     except ZeroDivisionError:
                         iteravg = np.NaN
-- 
2.43.0


From 7a6b21e0dbbee112c9d12f8497a76759fa3c94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 42/50] fix: cumulative tables with unsorted columns gave wrong
 amounts

---
 trikit/triangle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8bb4126..3cdcc07 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1382,6 +1382,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
+            data = data.sort_index(axis=1, key=lambda devp: devp.astype(int))
             incrtri = data.ffill(axis=1)
             incrtri = incrtri.diff(axis=1).fillna(incrtri).where(data.notna())
             incrtri = incrtri.rename_axis("origin").reset_index(drop=False)
-- 
2.43.0


From c6070b6dabbad3b29e5806045141438dbebb9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 43/50] fix: categorical, nullable and decimal columns gave
 wrong cells or raised

---
 trikit/triangle.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 3cdcc07..922bdae 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -52,7 +52,7 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_])
+        data2 = self._plain(data, origin_, dev_, value_)
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -127,6 +127,18 @@ class _BaseTriangle(pd.DataFrame):
             raise AttributeError("`{}` not present in data.".format(value_))
 
 
+    @staticmethod
+    def _plain(data, origin, dev, value):
+        """
+        Return the records of ``data`` having a loss amount with plain labels
+        and amounts, whatever the types of the fields (categorical, nullable,
+        decimal, ...).
+        """
+        data = data[[origin, dev, value]].dropna()
+        data = pd.DataFrame({kk: data[kk].tolist() for kk in data.columns})
+        return(data.astype({value: float}))
+
+
     @staticmethod
     def _neg_handler(data, dev, value):
         """
@@ -484,7 +496,7 @@ class _BaseCumTriangle(_BaseTriangle):
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         # Cumulate one amount per origin and dev, in development order.
-        data = data.dropna(subset=[value])
+        data = self._plain(data, origin, dev, value)
         data = data.groupby([origin, dev], as_index=False)[value].sum()
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
@@ -1397,6 +1409,9 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
     elif data_shape == "tabular":
 
+        _BaseTriangle._validate(data, origin=origin, dev=dev, value=value)
+        data = _BaseTriangle._plain(data, origin, dev, value)
+
         if data_format.lower().strip().startswith("c"):
             df = data.dropna(subset=[value])
             df = df.groupby([origin, dev], as_index=False)[value].sum()
-- 
2.43.0


From 6207c22888f83279c0c40d309a36b6658a09597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 44/50] fix: bootstrap plot failed under pandas'
 chained_assignment=raise

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 7eebd69..afc6abd 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1026,8 +1026,8 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
 
         data = data.drop(["_ff", "_minf"], axis=1).reset_index(drop=True)
         dfv = data[["origin", "dev", "rectype", "loss"]]
-        dfl = data[["origin", "dev", "rectype", qtlhdrs[0]]]
-        dfu = data[["origin", "dev", "rectype", qtlhdrs[-1]]]
+        dfl = data[["origin", "dev", "rectype", qtlhdrs[0]]].copy()
+        dfu = data[["origin", "dev", "rectype", qtlhdrs[-1]]].copy()
         dfl["rectype"] = qtlhdrs[0]
         dfl = dfl.rename({qtlhdrs[0]: "loss"}, axis=1)
         dfu["rectype"] = qtlhdrs[-1]
-- 
2.43.0


From e4e35003b72ecf3dd866af89e3c656ff41e5ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 45/50] fix: cumulative data with columns named cum or incr
 could not be read

---
 trikit/triangle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 922bdae..28773fd 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1415,10 +1415,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
         if data_format.lower().strip().startswith("c"):
             df = data.dropna(subset=[value])
             df = df.groupby([origin, dev], as_index=False)[value].sum()
-            df = df.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            incr = df.groupby([origin])[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
 
         elif data_format.lower().strip().startswith("i"):
             df = data
-- 
2.43.0


From 339de18f95253565573715f9fcd31f41ed20cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 46/50] fix: link ratios equal up to rounding were not ranked
 as ties

---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 28773fd..55ef079 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -762,7 +762,7 @@ class _BaseCumTriangle(_BaseTriangle):
             rank_list = []
             for devp_indx, devp in enumerate(a2a_lvi.index[:-1]):
                 last_valid_origin = a2a_lvi[a2a_lvi.index == devp].origin.item()
-                a2a_ii = self.a2a.loc[:, devp]
+                a2a_ii = self.a2a.loc[:, devp].round(10)
                 r_ii = a2a_ii.rank().to_frame().rename({devp: "r_{}".format(devp_indx + 1)}, axis=1)
                 s_ii = a2a_ii[a2a_ii.index < last_valid_origin].rank().to_frame().rename(
                     {devp: "s_{}".format(devp_indx + 2)}, axis=1
-- 
2.43.0


From 3db4a58ecb1a49324ab96ccb0c26ead5d267b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 47/50] fix: editing what a triangle's latest, triind, rlvi,
 clvi or a2a views return changed later results

---
 trikit/triangle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 55ef079..a5c00b5 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -181,7 +181,7 @@ class _BaseTriangle(pd.DataFrame):
                 last_actual_offset = self.clvi[self.clvi.origin == last_actual_origin].row_offset.values[0]
                 triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
             self._triind = triind
-        return(self._triind)
+        return(self._triind.copy())
 
 
     @property
@@ -201,7 +201,7 @@ class _BaseTriangle(pd.DataFrame):
             rlvi["col_offset"] = \
                 rlvi["dev"].map(lambda x: self.columns.get_loc(x))
             self._rlvi = rlvi
-        return(self._rlvi)
+        return(self._rlvi.copy())
 
 
     @property
@@ -221,7 +221,7 @@ class _BaseTriangle(pd.DataFrame):
             clvi["row_offset"] = \
                 clvi["origin"].map(lambda v: self.index.get_loc(v))
             self._clvi = clvi
-        return(self._clvi)
+        return(self._clvi.copy())
 
 
     @property
@@ -244,7 +244,7 @@ class _BaseTriangle(pd.DataFrame):
             latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
                 {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = latest[["origin", "dev", "latest"]].sort_index()
-        return(self._latest)
+        return(self._latest.copy())
 
 
     @property
@@ -744,7 +744,7 @@ class _BaseCumTriangle(_BaseTriangle):
             )
             a2a_lvi["row_offset"] = a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
             self._a2a_lvi = a2a_lvi
-        return(self._a2a_lvi)
+        return(self._a2a_lvi.copy())
 
 
     @property
@@ -770,7 +770,7 @@ class _BaseCumTriangle(_BaseTriangle):
                 rank_list.append(r_ii)
                 rank_list.append(s_ii)
             self._ranked_a2a = pd.concat(rank_list[1:-1], axis=1).dropna(how="all")
-        return(self._ranked_a2a)
+        return(self._ranked_a2a.copy())
 
 
     @property
@@ -802,7 +802,7 @@ class _BaseCumTriangle(_BaseTriangle):
                         else:
                             assignment.at[origin, devp] = -1
             self._a2a_assignment = assignment
-        return(self._a2a_assignment)
+        return(self._a2a_assignment.copy())
 
 
 
-- 
2.43.0


From f65c963aa57a4884aea88821cfd882a54a23f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 48/50] fix: a bootstrap result's q was the caller's list, or
 the default shared by every call

---
 trikit/estimators/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index afc6abd..bb752f3 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1,6 +1,7 @@
 """
 BootstrapChainLadder implementation.
 """
+import copy
 import functools
 import warnings
 import numpy as np
@@ -887,7 +888,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         self.procdist = procdist
         self.sims = sims
         self.dof = dof
-        self.q = q
+        self.q = copy.copy(q)
 
         if kwargs is not None:
             for kk in kwargs:
-- 
2.43.0


From 3de10018d91a9db75a0f975f4515ef54d2495157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 49/50] fix: editing a bootstrap result's origin_dist or
 residuals_detail changed its later results

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index bb752f3..7120f65 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -918,7 +918,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
             dist_columns = ["latest", "ultimate", "reserve"]
             self._origin_dist = self.reserve_dist.groupby(
                 ["sim", "origin"], as_index=False)[dist_columns].sum()
-        return(self._origin_dist)
+        return(self._origin_dist.copy())
 
 
     @property
@@ -985,7 +985,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                         ]
                     )
 
-        return(self._residuals_detail)
+        return(copy.copy(self._residuals_detail))
 
 
     def _bs_data_transform(self, qtls, qtlhdrs):
-- 
2.43.0


From 6b9a1f2288378958e4b2ac91da111e0bbef3f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 50/50] fix: devp_corr_test leaves numpy's global generator
 alone

---
 trikit/estimators/mack.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 2cfc804..7cb69c0 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -6,7 +6,6 @@ import numpy as np
 import pandas as pd
 from scipy import special
 from scipy.stats import norm, lognorm
-from scipy.optimize import root
 from .base import BaseRangeEstimator, BaseRangeEstimatorResult
 
 
@@ -691,11 +690,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         tuple
         """
-        def fnorm(x, p):
-            return(norm.cdf(x) - norm.cdf(-x) - p)
-
-        f = functools.partial(fnorm, p=p)
-        z = root(f, np.random.rand()).x.item()
+        z = norm.ppf((1 + p) / 2).item()
         s = np.sqrt(self._devp_corr_test_var())
         return((-z / s, z / s), self._spearman_corr_total())
 
-- 
2.43.0

