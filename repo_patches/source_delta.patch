From 0c52134856821eb7a864c6c67940ebc5b246890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 01/27] fix: time_tracking without tf crashed after its second
 time step

With the default tf=None the progress printer received None as the number
of steps and raised TypeError; t0 was silently ignored as well.
---
 trackeddy/trackeddy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..ce9e5ea 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
-- 
2.43.0


From 8cda4bff7a8bfcb5fbcaf8ffbd9cc086e02992a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 02/27] fix: time_tracking lost or mixed up tracks with missing
 eddies

A track is continued after up to ntimes missing time steps, time steps or
first snapshots without eddies no longer raise a KeyError, and a new track
never takes the identifier of an older one.
---
 trackeddy/utils.py | 94 +++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 72 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..6e85a20 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -6,12 +6,12 @@ from scipy import ndimage
 from sklearn.neighbors import BallTree
 
 
-def _rename_eddies_in_time(current_time, index, nearest, prev_count):
+def _rename_eddies_in_time(current_time, index, nearest, prev_count, identifiers):
     for near in nearest:
         shifted_counter = near + prev_count + 1
 
         current_time = current_time.rename(
-            index={shifted_counter: index[near][0]}, level=0
+            index={shifted_counter: identifiers[index[near][0]]}, level=0
         )
 
         # TODO add conditions to better estimate a track, i.e.
@@ -154,75 +154,20 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour
 
 
-def _get_non_duplicated_identifiers(merged_identifiers):
-    values, counts = np.unique(merged_identifiers, return_counts=True)
-
-    duplicated = []
-    for count in range(0, len(counts)):
-        if counts[count] >= 2:
-            duplicated.append(count)
-
-    values = np.delete(values, duplicated)
-    return values
-
-
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
-    # Move to decorator
-    if time < ntimes:
-        ntimes = time
-    # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
-
-    # Loop and arrays to contain extracted identifier of eddies identified
-    # in the last ntimes in the table.
-    unlinked_tracks_in_time = last_identified_eddies
-    unlinked_times = np.ones_like(last_identified_eddies) * time
-    # Loop back in time to check if missing a eddy track
-    for prev_time in np.arange(time - ntimes, time):
-        # Extracted identifier of eddies identified in the last time-ntimes
-        # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
-
-        merged_identifiers = np.hstack(
-            (last_identified_eddies, previous_identified_eddies)
-        )
-
-        values = _get_non_duplicated_identifiers(merged_identifiers)
-
-        unlinked_tracks_in_time = np.hstack((unlinked_tracks_in_time, values))
-        unlinked_times = np.hstack((unlinked_times, np.ones_like(values) * prev_time))
-
-    # Perhaps not the cleanest code, but it ensures that only the last time
-    # for all the detected eddies is the output.
-    unlinked_tracks_in_time = np.unique(unlinked_tracks_in_time)
-
-    times = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .reset_index()
-        .groupby("identifier")
-        .max("time")["time"]
-        .values
+    # Last time at which each track was identified.
+    last_time = (
+        previous_time.index.to_frame(index=False).groupby("identifier")["time"].max()
     )
 
-    eddies_to_track = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .groupby(["identifier", "index"])
-        .last("time")
-    )
+    # Tracks that have been missing for more than ntimes time steps are over.
+    unlinked_tracks_in_time = last_time.index[last_time >= time - ntimes]
 
-    eddies_to_track["time"] = [times[index] for index, n in eddies_to_track.index]
+    # Only the last record of each of these tracks is the output.
+    eddies_to_track = previous_time.loc[unlinked_tracks_in_time].reset_index()
+    is_last = eddies_to_track["time"].eq(eddies_to_track["identifier"].map(last_time))
 
-    eddies_to_track = eddies_to_track.reset_index().set_index(
-        ["identifier", "time", "index"]
-    )
-
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
-
-    return eddies_to_track
+    return eddies_to_track[is_last].set_index(["identifier", "time", "index"])
 
 
 def track_online(track_in_time, current_time, time, ntimes):
@@ -232,16 +177,21 @@ def track_online(track_in_time, current_time, time, ntimes):
         track_in_time, time - 1, ntimes=ntimes
     )
 
-    # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
+    # Detect nearest eddies, if there are still tracks to continue. The nearest
+    # detection counts the eddies of the previous table, not all the tracks.
+    index, nearest, identifiers = [], [], []
+    if not previous_time.empty:
+        index, nearest = _detect_nearest(previous_time, current_time)
+        identifiers = previous_time.xs(0, level="index").index.get_level_values(0)
 
-    # Update counter of current time to avoid overlap with the
-    # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    # Update counter of current time to avoid overlap with any previous track
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
     # Rename identifier of  nearest eddies to match the previous
     # table identifier
-    current_time = _rename_eddies_in_time(current_time, index, nearest, prev_count)
+    current_time = _rename_eddies_in_time(
+        current_time, index, nearest, prev_count, identifiers
+    )
 
     # Merge dictionaries.
     track_in_time = _merge_reindex_eddies(track_in_time, current_time)
-- 
2.43.0


From b40f4e0fd96e4d1486101f08b858cb5652301929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 03/27] fix: two eddies of one time step could continue the
 same track

Only the closest eddy continues the track, the others start a new one.
---
 trackeddy/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 6e85a20..3448b83 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -9,10 +9,13 @@ from sklearn.neighbors import BallTree
 def _rename_eddies_in_time(current_time, index, nearest, prev_count, identifiers):
     for near in nearest:
         shifted_counter = near + prev_count + 1
+        identifier = identifiers[index[near][0]]
 
-        current_time = current_time.rename(
-            index={shifted_counter: identifiers[index[near][0]]}, level=0
-        )
+        # Only one eddy, the closest, continues a track.
+        if identifier in current_time.index.get_level_values(0):
+            continue
+
+        current_time = current_time.rename(index={shifted_counter: identifier}, level=0)
 
         # TODO add conditions to better estimate a track, i.e.
         # compute propagation speed and check distance.
@@ -112,6 +115,8 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # The closest eddies are first.
+    nearest = nearest[np.argsort(distance[nearest, 0], kind="stable")]
     return index, nearest
 
 
-- 
2.43.0


From f00a2ad52d840f3368293aa3450c42e48cfea991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 04/27] fix: two eddies of one level could both replace the
 same previous eddy

They ended up in the table as a single eddy with duplicated rows.
---
 trackeddy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 3448b83..2108632 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -59,6 +59,9 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
 
         # TODO check if this is the best condition.
         if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+            # Only one eddy, the closest, can replace the previous one.
+            if index[duplicated][0] in replaced_eddies:
+                continue
             n_eddy = n_eddy.rename(
                 index={shifted_counter: index[duplicated][0]}, level=0
             )
-- 
2.43.0


From e035c3e696f5f109cb8f0f00319cad4906e26b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 05/27] fix: discarded eddies leaked into the next detection

The tables of identified and discarded eddies were only reset after a level
with identified eddies.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ce9e5ea..735370b 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -278,6 +278,10 @@ class TrackEddy:
         discarded = None
         eddy = None
 
+        # Forget any eddy left from a previous detection, i.e. a level without
+        # identified eddies, or a detection that didn't finish.
+        Eddy(None, level).exit()
+
         contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
 
         for contour in contours:
-- 
2.43.0


From f0b7cd24b612a1446093bdad052b0a4861067579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 06/27] fix: a contour without an ellipse fit aborted the
 detection

Small contours of only a few points may lead to a singular matrix, discard
them instead of raising a LinAlgError.
---
 trackeddy/trackeddy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 735370b..23cbcee 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -307,9 +307,14 @@ class TrackEddy:
                 continue
 
             # TODO clean the fit_ellipse function and input only eddy.contour
-            eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-                eddy.contour[:, 0], eddy.contour[:, 1]
-            )
+            try:
+                eddy.ellipse, eddy.ellipse_params = fit_ellipse(
+                    eddy.contour[:, 0], eddy.contour[:, 1]
+                )
+            except np.linalg.LinAlgError:
+                # Contours with just a few points may not define an ellipse.
+                discarded = eddy.discarded("ellipse_fit_failed")
+                continue
 
             # Check if area is similar between fitted ellipse and contour
             # Discarding by area first improves the time.
-- 
2.43.0


From 24983bf26d35cd23ae9a5576ee61b81d803a1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 07/27] fix: contours that aren't closed could be identified as
 eddies

---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 23cbcee..96dcf4f 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -290,6 +290,11 @@ class TrackEddy:
             if np.allclose(np.mean(contour, axis=0), contour[0], equal_nan=True):
                 continue
 
+            # Eddies are closed contours, ignore those that end at the boundary
+            # of the domain or at nans.
+            if not np.array_equal(contour[0], contour[-1]):
+                continue
+
             eddy = Eddy(contour, level)
 
             # Brute force the removal of contours that are too large
-- 
2.43.0


From 44749096ca318fa87c9496f28097d7c805347273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 08/27] fix: frdist exceeded the recursion limit for long
 curves

---
 trackeddy/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..b1d16ea 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -409,7 +409,11 @@ def frdist(P, Q):
 
     ca = np.ones((len_p, len_q), dtype=np.float64) * -1
 
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
+    # Fill the table in order, a single call to _c for the last points exceeds
+    # the recursion limit for long curves.
+    for i in range(len_p):
+        for j in range(len_q):
+            dist = _c(ca, i, j, p, q)
 
     return dist
 
-- 
2.43.0


From 6a545544c491e3f944c6ca5d5a92a0f5cfee6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 09/27] fix: data ordered as (x, y) was tracked with swapped
 coordinates

---
 trackeddy/trackeddy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 96dcf4f..65fc528 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -88,8 +88,9 @@ class TrackEddy:
             len(self.Dataset[x_coord_name].shape) == 2
             and len(self.Dataset[y_coord_name].shape) == 2
         ):
-            self.X = self.Dataset[x_coord_name].values
-            self.Y = self.Dataset[y_coord_name].values
+            dims = self.coords["y"], self.coords["x"]
+            self.X = self.Dataset[x_coord_name].transpose(*dims).values
+            self.Y = self.Dataset[y_coord_name].transpose(*dims).values
 
         else:
             raise ValueError(
@@ -232,6 +233,9 @@ class TrackEddy:
         else:
             data_snapshot = self.rawdata.squeeze()
 
+        # The coordinates X and Y are ordered as (y, x).
+        data_snapshot = data_snapshot.transpose(self.coords["y"], self.coords["x"])
+
         self._filter_data_(data_snapshot, filter=self.filter)
 
         joint_eddies = pd.DataFrame({"": []})
-- 
2.43.0


From 1e43aa445c8ad8661d0b92a7ea7203b26115f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 10/27] fix: nan_treatment was ignored when filtering the data

---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..6f7c67f 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -61,7 +61,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From 1f7cd5d8bd1b7172ac317af426b593ec6389887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 11/27] fix: the first snapshot with eddies was never stored
 without online tracking

---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 65fc528..0ca5742 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -203,6 +203,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From 74cffddc541c0026000a0514af44d6e4840283eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 12/27] fix: generated fields were scrambled when len(x) !=
 len(y)

---
 trackeddy/generator/field_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..c96e41d 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -9,7 +9,6 @@ def dist(loc1, loc2):
 
 class Generate_field:
     def __init__(self, a, b, n, x, y, opt=""):
-        # BUG WHEN LEN(x) != LEN(y) ?
         self.xlen = len(x)
         self.ylen = len(y)
         self.a = a * rnd.uniform(0.9, 1.1)
@@ -176,7 +175,7 @@ class Generate_field:
         return indexs[0] + movcood[0], indexs[1] + movcood[1]
 
     def assemble_field(self, N, margin=50):
-        data = np.zeros((N, self.xlen + 2 * margin, self.ylen + 2 * margin))
+        data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
-- 
2.43.0


From fc3c0bc667889cdf8f930c0c737aa6b0bf2fccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 13/27] fix: reconstruct_field always failed to reshape the
 field

---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index c96e41d..829d199 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -193,10 +193,10 @@ class Generate_field:
         return data
 
     def reconstruct_field(self):
-        data = np.zeros((self.xlen, self.ylen))
+        data = np.zeros((self.ylen, self.xlen))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
-                self.pass_args(keys),
+                self.pass_args(keys, margin=0),
                 item["radius"][0],
                 item["radius"][1],
                 item["angle"],
-- 
2.43.0


From e2d8ba15839ee1cf06e7bd6a6b6ba9e7dfe4d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 14/27] fix: placing non interacting eddies could never end or
 accept coincident ones

---
 trackeddy/generator/field_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 829d199..d5d6ff9 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -130,7 +130,7 @@ class Generate_field:
                 or (distance < away_val * self.b).any()
             ) or loc
             count = 0
-            while checker or count >= 10000:
+            while checker and count < 10000:
                 newx = rnd.randint(0, self.xlen - 1)
                 newy = rnd.randint(0, self.ylen - 1)
                 self.eddies[key1]["loc"] = [[newx, newy]]
@@ -145,10 +145,9 @@ class Generate_field:
                     ]
                 )
                 numzeros = [ii for ii in distance if ii == 0]
+                # More than one zero implies another eddy in the same location.
                 if len(numzeros) <= 1:
                     distance[distance == 0] = np.inf
-                else:
-                    distance[distance == 0] = away_val * self.a
                 checker = (distance < away_val * self.a).any() or (
                     distance < away_val * self.b
                 ).any()
-- 
2.43.0


From 41c314d1078c819f7fb2fa488a9d20d844bebbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 15/27] fix: data of eddies larger than 3 degrees was cropped

Grid points more than 3 degrees away from the center were ignored, so the
maxima and its location could be wrong.
---
 trackeddy/trackeddy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 0ca5742..6f31713 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -422,9 +422,11 @@ class TrackEddy:
         # To speed up the process of finding the nearest point,
         # we mask values near the point that are close by 5% of its value,
         # with a largest cap of 3 degrees if coordinates are geographical.
-        # The atol fixes the issue in x or y coordinates close to 0.
-        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
-        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
+        # The atol fixes the issue in x or y coordinates close to 0, and it can't
+        # be smaller than the contour.
+        x_extent, y_extent = np.ptp(eddy.contour, axis=0)
+        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=max(3, x_extent))
+        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=max(3, y_extent))
 
         # This step finds some rough coordinates to crop the domain so
         # the BallTree search is quicker.
-- 
2.43.0


From 707af6bf808eee0bcc08ad0455b33ac3b5c71bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 16/27] fix: area of contours around (180E, 0N) was the rest of
 the globe

---
 trackeddy/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index b1d16ea..861c0ae 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -444,7 +444,9 @@ def eccentricity(a, b):
 def area_latlon_polygon(lonlat):
     # https://gis.stackexchange.com/questions/413349/calculating-area-of-lat-lon-polygons-without-transformation-using-geopandas
 
-    contour_lon = lonlat[:, 0]
+    # The integration is singular at (0, 0) and (180, 0). The area doesn't depend
+    # on the longitude, so shift the polygon away from them.
+    contour_lon = lonlat[:, 0] - np.mean(lonlat[:, 0]) + 90
     contour_lat = lonlat[:, 1]
 
     lon_rad = np.deg2rad(contour_lon)
-- 
2.43.0


From e00a00081eff30ca9cc758245ed67ce0611c32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 17/27] fix: an empty window (tf=0) tracked the whole record

---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6f31713..b686f24 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,7 +183,7 @@ class TrackEddy:
         self, t0=0, tf=None, lin_levels=None, ntimes=5, online_track=True
     ):
         # TODO Move to decorator?
-        if not tf:
+        if tf is None:
             tf = len(self.Dataset[self.coords["time"]])
         times = range(t0, tf)
 
-- 
2.43.0


From 27958f7c0c7cea0aeb1e733db0f0c81a965ae529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 18/27] fix: non interacting eddies of the first frame were
 placed on another grid

---
 trackeddy/generator/field_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index d5d6ff9..97e20cc 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -175,6 +175,8 @@ class Generate_field:
 
     def assemble_field(self, N, margin=50):
         data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
+        # The distance between eddies is checked in the grid with margins.
+        self.add_margin(margin)
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
@@ -203,9 +205,12 @@ class Generate_field:
             data = data + gauss
         return data
 
-    def pass_args(self, key, margin=50):
+    def add_margin(self, margin):
         self.x = np.linspace(min(self.x), max(self.x), self.xlen + 2 * margin)
         self.y = np.linspace(min(self.y), max(self.y), self.ylen + 2 * margin)
+
+    def pass_args(self, key, margin=50):
+        self.add_margin(margin)
         X, Y = np.meshgrid(self.x, self.y)
         if self.opt == "interaction" or self.opt == "int":
             xloc = rnd.randint(0, self.xlen - 1) + margin
-- 
2.43.0


From 28e21fc21e987050988a22b94dd35aa1f201449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 19/27] fix: the orientation of the ellipse fitted to a circle
 was not a number

---
 trackeddy/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 861c0ae..248291a 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -226,7 +226,7 @@ def fit_ellipse(x, y):
 
     a, b, c, d, e = x2
 
-    if b == 0 and a < c:
+    if b == 0 and a <= c:
         anglexaxis_rad = 0
     elif b == 0 and c < a:
         anglexaxis_rad = np.pi / 2
-- 
2.43.0


From d206553f614dd349ff9775f5e3b2dca173770a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 20/27] fix: detection failed on grids that aren't aligned with
 the coordinates

---
 trackeddy/trackeddy.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index b686f24..2d109ef 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -430,17 +430,23 @@ class TrackEddy:
 
         # This step finds some rough coordinates to crop the domain so
         # the BallTree search is quicker.
-        sum_x = np.sum(Xmask * Ymask, 0)
-        sim_y = np.sum(Xmask * Ymask, 1)
+        XYmask = Xmask * Ymask
+        ind_x = np.flatnonzero(XYmask.any(axis=0))
+        ind_y = np.flatnonzero(XYmask.any(axis=1))
         # Corners of the box
-        shift_x = np.argmax(sum_x)
-        shift_y = np.argmax(sim_y)
-
-        # Extract last item, since it will always be different than 0.
-        mask_shape = np.unique(sum_x)[-1], np.unique(sim_y)[-1]
+        shift_x = ind_x[0]
+        shift_y = ind_y[0]
+
+        # The box contains all the points near the contour, including when
+        # the coordinates aren't aligned with the grid.
+        mask_shape = ind_y[-1] - shift_y + 1, ind_x[-1] - shift_x + 1
+        box = (
+            slice(shift_y, shift_y + mask_shape[0]),
+            slice(shift_x, shift_x + mask_shape[1]),
+        )
 
-        x = self.X[Xmask * Ymask]
-        y = self.Y[Xmask * Ymask]
+        x = self.X[box].ravel()
+        y = self.Y[box].ravel()
 
         # Another option is to search through all the X and Y space,
         # but it's 100 times slower to compute.
-- 
2.43.0


From ed87a46ed49874abc6053a233657f2014838b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 21/27] fix: the Gaussian couldn't be fitted where a coordinate
 doesn't change along its dimension

---
 trackeddy/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 248291a..ae08762 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -70,8 +70,9 @@ class Fit_Surface:
         return fitted_data, fitdict
 
     def construct_bounds(self):
-        xdelta = np.mean(np.diff(self.X, axis=1))
-        ydelta = np.mean(np.diff(self.Y, axis=0))
+        # Each coordinate may change along any of the dimensions of the grid.
+        xdelta = max(abs(np.mean(np.diff(self.X, axis=n))) for n in (0, 1))
+        ydelta = max(abs(np.mean(np.diff(self.Y, axis=n))) for n in (0, 1))
 
         LCoordbounds = np.array(
             [[self.initial_guess[0] - xdelta], [self.initial_guess[1] - ydelta]]
-- 
2.43.0


From c7507f6b2298577fe0e9abbc2c1c03285840a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 22/27] fix: plots failed when no eddy was identified or none
 discarded

---
 trackeddy/trackeddy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 2d109ef..33f5907 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -550,7 +550,10 @@ class TrackEddy:
 
         n_colors = list(mcolors.XKCD_COLORS.keys())
 
-        levels = df_eddy_multilevel_store.level.unique()
+        if df_eddy_multilevel_store.empty:
+            levels = []
+        else:
+            levels = df_eddy_multilevel_store.level.unique()
         color_index = np.linspace(0, len(n_colors) - 1, len(levels), dtype=int)
 
         plt.figure(figsize=(10, 6), dpi=300)
@@ -566,10 +569,13 @@ class TrackEddy:
 
             plt.plot(c_path_x, c_path_y, color=n_colors[color_index[inx]])
 
-        if len(levels) < 5:
+        if 0 < len(levels) < 5:
             for level in range(len(levels)):
                 plt.plot(
-                    c_path_x[0], c_path_y[0], color=n_colors[level], label=levels[level]
+                    c_path_x[0],
+                    c_path_y[0],
+                    color=n_colors[level],
+                    label=levels[level],
                 )
             plt.legend()
 
@@ -591,7 +597,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in eddies.index.levels[0]:
+        for idx in eddies.index.unique(level=0):
             Xcontour = eddies.loc[idx]["contour_path_x"]
             Ycontour = eddies.loc[idx]["contour_path_y"]
 
@@ -610,7 +616,8 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in discarded.index:
+        # There is only a list when no eddy was discarded.
+        for idx in discarded.index if len(discarded) else []:
             x_cont = discarded.loc[idx]["contour_x"]
             y_cont = discarded.loc[idx]["contour_y"]
 
-- 
2.43.0


From b69492d9135474782f243f843f35737bf4f00792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 23/27] fix: the legend of the levels had other colors than
 their contours

---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 33f5907..6ffa11a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -574,7 +574,7 @@ class TrackEddy:
                 plt.plot(
                     c_path_x[0],
                     c_path_y[0],
-                    color=n_colors[level],
+                    color=n_colors[color_index[level]],
                     label=levels[level],
                 )
             plt.legend()
-- 
2.43.0


From e025f0945206d4733dab3621850e4293254ff69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 24/27] fix: contours without an ellipse were plotted as if
 they differed from the Gaussian

---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6ffa11a..dac4619 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -626,7 +626,7 @@ class TrackEddy:
                     ax[1].plot(x_cont, y_cont, ".r", **plot_args)
                 case "area":
                     ax[1].plot(x_cont, y_cont, ".", color="gray", **plot_args)
-                case "similarity":
+                case "similarity" | "ellipse_fit_failed":
                     ax[1].plot(x_cont, y_cont, ".c", **plot_args)
                 case "ellipse_area":
                     ax[1].plot(x_cont, y_cont, ".m", **plot_args)
-- 
2.43.0


From d39c3c2ab3a9f11006bdc7c7de803634ad8b8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 25/27] fix: give the key to_hdf requires when a snapshot is
 stored as hd5

---
 trackeddy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 2108632..a3d59f9 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -224,4 +224,5 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
         case "json":
             track_in_time.to_json(out_path, **kwargs)
         case "hd5":
-            track_in_time.to_hdf(out_path, **kwargs)
+            options = {"key": "identified_eddies", "mode": "w", **kwargs}
+            track_in_time.to_hdf(out_path, **options)
-- 
2.43.0


From d528447412cd46c0ee113ca622312b79da5fe7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 26/27] fix: refuse to store snapshots in an unknown format
 instead of writing nothing

---
 trackeddy/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index a3d59f9..a7b8deb 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -226,3 +226,9 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
         case "hd5":
             options = {"key": "identified_eddies", "mode": "w", **kwargs}
             track_in_time.to_hdf(out_path, **options)
+        case _:
+            raise ValueError(
+                "Unknown format: {0} - only csv, json and hd5 are supported".format(
+                    format
+                )
+            )
-- 
2.43.0


From 8864d587068949c90ab779060c18ac05f8073d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 27/27] fix: time_tracking without tf failed on datasets
 without time

---
 trackeddy/trackeddy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index dac4619..585b365 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -184,7 +184,9 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if tf is None:
-            tf = len(self.Dataset[self.coords["time"]])
+            # A dataset without time is a single snapshot.
+            time_dim = self.coords["time"]
+            tf = len(self.Dataset[time_dim]) if time_dim else 1
         times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
-- 
2.43.0

