From 8c63f6932b4d66560c8c982a6a6bf76efcc47329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/66] fix: read flow files which end within the first header
 buffer

---
 strata/dataformats/gmx_flow_version_1/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..0e4a964 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -75,11 +75,14 @@ def read_header(fp):
         while True:
             buf = fp.read(buf_size)
 
+            if buf == b'':
+                raise ValueError("file ended before the end of its header")
+
             pos = buf.find(b'\0')
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 074be24d54016d25906acbb32f4b3212cdefa39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/66] fix: refuse flow files which are cut short in their
 data

---
 strata/dataformats/gmx_flow_version_1/read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 0e4a964..31dcc59 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -48,11 +48,16 @@ def read_values(fp, num_values, fields):
         'V': np.float32,
     }
 
-    return {
+    data = {
         l: np.fromfile(fp, dtype=dtypes[l], count=num_values)
         for l in fields
     }
 
+    if any(values.size != num_values for values in data.values()):
+        raise ValueError("file ended before the end of its data")
+
+    return data
+
 def read_header(fp):
     """Read header information and forward the pointer to the data."""
 
-- 
2.43.0


From 53dd9373f1810027cbff114f0bf0e17c7c0f87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/66] fix: do not read simple binary files as plaintext
 because of their values

---
 strata/dataformats/simple/read.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..7b4545d 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -26,12 +26,15 @@ def read_data(filename, decimals=5):
         """Return handle to binary or plaintext function."""
 
         def is_binary(filename, checksize=512):
-            with open(filename, 'r') as fp:
-                try:
-                    fp.read(checksize)
-                    return False
-                except UnicodeDecodeError:
-                    return True
+            with open(filename, 'rb') as fp:
+                buf = fp.read(checksize)
+
+            # Plaintext files start with a line of field labels. Note that
+            # binary values may well be bytes which are valid text.
+            header = buf.lstrip().split(b'\n', 1)[0]
+            labels = header.replace(b'#', b' ').split()
+
+            return b'\0' in buf or not {b'X', b'Y'}.issubset(labels)
 
         if is_binary(filename):
             return read_binsimple
-- 
2.43.0


From e7c9951803ee33476e9d5a95bd7ca3b50915f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 04/66] fix: read simple maps of a single row or column with
 finite coordinates

---
 strata/dataformats/simple/read.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 7b4545d..a30771c 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -102,11 +102,12 @@ def calc_information(X, Y):
             x0 = np.min(xs)
             x1 = np.max(xs)
 
-            try:
-                return (x1 - x0) / (n - 1)
-            except:
+            # Numpy does not raise an error for this division by zero
+            if n < 2:
                 return 0.0
 
+            return (x1 - x0) / (n - 1)
+
         dx = calc_1d(X, nx)
         dy = calc_1d(Y, ny)
 
-- 
2.43.0


From 289d5572fb04025383e281786059a6eaabcec907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 05/66] fix: read simple plaintext maps of a single bin

---
 strata/dataformats/simple/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index a30771c..744b293 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -178,7 +178,7 @@ def read_plainsimple(filename):
         # Unpack into dictionary
         data = {}
         for field in raw_data.dtype.names:
-            data[field] = raw_data[field]
+            data[field] = np.atleast_1d(raw_data[field])
 
         return data
 
-- 
2.43.0


From 9d727667eeecff73dbb664a9a9dc9bd3c70cfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 06/66] fix: averaging in quiet mode has no progress to finish

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..bbeb7b6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From 805f83bef9cbfc823eef42bca74ab2923302a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 07/66] fix: count the columns of recentered maps without
 truncation

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index bbeb7b6..5826aa6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -228,7 +228,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(np.round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From a31cd562b36ebcc33d2e130273b753da3569d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/66] fix: write averaged maps on the grid left after
 limiting or recentering them

---
 strata/average.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 5826aa6..23abca9 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -111,6 +111,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         used_modules = set([])
 
         for data, info, meta in read_from_files(*fn_group):
+            spacing = info['spacing']
+
             if cut_x_or_y:
                 data = cut_system(data, xlim, ylim)
 
@@ -145,9 +147,10 @@ def average(base, output, group=1, rolling=False, **kwargs):
             else:
                 raise ValueError("Invalid position to recenter around ('%s'). Must be 'com', 'left' or 'right'" % recenter)
 
-            group_data, info = recenter_maps(group_data, xs_edges)
+            group_data, _ = recenter_maps(group_data, xs_edges)
 
         avg_data = module.average_data(*group_data)
+        info = get_grid_info(avg_data, spacing)
 
         if combine != (None, None):
             avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
@@ -242,6 +245,24 @@ def recenter_maps(data_maps, recenter_values):
     return recentered_data, info
 
 
+def get_grid_info(data, spacing):
+    """Return the information about the grid that the bins of a map are on.
+
+    The origin of the grid is the bottom-left corner of its first bin, as it
+    is in the written format.
+
+    """
+
+    coords = [np.unique(data[l]) for l in ('X', 'Y')]
+
+    return {
+        'origin': [cs[0] - 0.5*dx for cs, dx in zip(coords, spacing)],
+        'spacing': list(spacing),
+        'shape': [cs.size for cs in coords],
+        'num_bins': data['X'].size
+    }
+
+
 def cut_system(data, xlim, ylim):
     xs = data['X']
     ys = data['Y']
-- 
2.43.0


From 89288f852dc535fdb54032dc7962bcc56022a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 09/66] fix: write maps with combined bins on their new grid

---
 strata/average.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 23abca9..7038456 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -153,7 +153,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
         info = get_grid_info(avg_data, spacing)
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, info = combine_bins(module, avg_data, info, nx, ny)
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
@@ -263,6 +263,19 @@ def get_grid_info(data, spacing):
     }
 
 
+def combine_bins(module, data, info, nx, ny):
+    """Combine bins of a map whose information has a corner as origin."""
+
+    # The modules combine bins on a grid with the first bin's mid-point as origin
+    info = dict(info)
+    info['origin'] = [x0 + 0.5*dx for x0, dx in zip(info['origin'], info['spacing'])]
+
+    data, info = module.combine_bins(data, info, nx, ny)
+    info['origin'] = [x0 - 0.5*dx for x0, dx in zip(info['origin'], info['spacing'])]
+
+    return data, info
+
+
 def cut_system(data, xlim, ylim):
     xs = data['X']
     ys = data['Y']
-- 
2.43.0


From beeb00ffa6554a4bf90382b2de877993922aef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 10/66] fix: write supersampled averages on their new grid and
 in order

---
 strata/average.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index 7038456..7a1c77c 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -157,22 +157,30 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-            info = {
+            flow = FlowData(*data, info={
                 'shape': info['shape'],
                 'spacing': info['spacing'],
-            }
-
-            flow = FlowData(*data, info=info)
+            })
 
             supersampled_data = supersample_flow_data(
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # Maps are written in x-major order and the corner of the grid,
+            # unlike the mid-point of its first bin, has not moved
+            supersampled_data.data.sort(order=['X', 'Y'])
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
             }
 
+            info.update({
+                'shape': supersampled_data.shape,
+                'spacing': supersampled_data.spacing,
+                'num_bins': supersampled_data.data.size
+            })
+
         write(fn_out, avg_data, info)
 
         if not quiet:
-- 
2.43.0


From 29a9ea7289c9505f4871dcb1a724702604de3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 11/66] fix: the default cutoff radius is the smallest bin
 distance along x and y

---
 droplets/interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..9127c8b 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,9 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            # Differences between coordinates are not exact: include
+            # all of the bins which are at this distance
+            radius = np.min(np.append(xdiff, ydiff)) * (1. + 1e-6)
 
         return radius
 
-- 
2.43.0


From 65e79a70310509f3a46ed73d4818ebd5f22f6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/66] fix: yield the right bins of unsorted maps in the
 periodic interface search

---
 droplets/interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 9127c8b..e699a8d 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -317,8 +317,8 @@ def get_interface(flow, label, **kwargs):
 
             # These are then the full data for the layer of the current y-value.
             # We then sort it, to traverse it in the order of increasing x.
-            layer = data[indices]
-            sorted_layer = np.sort(layer, order=xlabel)
+            indices = indices[np.argsort(data[xlabel][indices])]
+            sorted_layer = data[indices]
 
             # Limit the search for cell neighbours in the data which is
             # within the possible radius of the layer.
@@ -344,7 +344,6 @@ def get_interface(flow, label, **kwargs):
             # one was found), as indices from the input `sorted_layer`.
             # We then return the corresponding indices from our full
             # dataset.
-            # TODO: This does not account for an unsorted input dataset though??
             if result != None:
                 left, right = result
                 yield [indices[edge] for edge in (left, right)]
-- 
2.43.0


From d058e022834ae2da72634d732eaf58e1f5c7c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 13/66] fix: count periodic neighbours in systems which do not
 start at zero

---
 droplets/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index e699a8d..c74a7df 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -293,11 +293,12 @@ def get_interface(flow, label, **kwargs):
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
         # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        xmin = np.min(data[xlabel])
+        left_edge_indices = np.where(data[xlabel] <= xmin + cutoff_radius)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(data[xlabel] >= xmin + box_x - cutoff_radius)
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
-- 
2.43.0


From ced7762c83ca0799604f4a714611ee2b1424c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 14/66] fix: return no contact angles when there are no layers
 to get them from

---
 droplets/interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index c74a7df..75a9840 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -76,7 +76,14 @@ def get_contact_angle(flow, height, label, **kwargs):
     kwargs['ylims'] = (yfloor, None)
 
     interface = get_interface(flow, label, **kwargs)
-    indices = next(interface)
+    angles = None, None
+
+    # Break if there is no interface at all
+    try:
+        indices = next(interface)
+    except StopIteration:
+        return None, None
+
     ymin, xedges = get_coords(flow, indices)
 
     # Break if a floor was specified and no cells are found in that layer
-- 
2.43.0


From f7f4d2eb2f24f7930156def9dd831d0b98f52cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 15/66] fix: follow periodic edges in systems which do not
 start at zero

---
 strata/spreading/collect.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..e5365ae 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -238,8 +238,9 @@ def check_and_update_periodic_info(pbc_info, box_x,
     its previous position.
 
     The boundary that it crossed is that which is furthest away from its new
-    position, by which we can infer how to adjust box-relative position to
-    the system-absolute.
+    position, ie. it crossed the right boundary if it jumped to the left. By
+    this we can infer how to adjust box-relative position to the
+    system-absolute.
 
     Note that this function assumes that at all times, the system-absolute
     position of the left edge is smaller (along x) than the system-absolute
@@ -263,10 +264,10 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     """
 
-    def get_pbc_edge_multiplier_addition(x_current, box_x):
+    def get_pbc_edge_multiplier_addition(x_current, x_prev):
         """Return -1 if the left edge was crossed, +1 if the right edge."""
 
-        if x_current % box_x > abs(box_x - x_current % box_x):
+        if x_current > x_prev:
             return -1
         else:
             return +1
@@ -284,9 +285,6 @@ def check_and_update_periodic_info(pbc_info, box_x,
     pbc_multiplier_left = pbc_info.pbc_multiplier_left
     pbc_multiplier_right = pbc_info.pbc_multiplier_right
 
-    xleft = xleft_current + pbc_multiplier_left * box_x
-    xright = xright_current + pbc_multiplier_right * box_x
-
     try:
         crossing_event = detect_crossing_event(xleft_current, xright_current,
             pbc_info.xleft_prev, pbc_info.xright_prev)
@@ -303,11 +301,11 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
             if dx_left > dx_right:
                 pbc_multiplier_left += get_pbc_edge_multiplier_addition(
-                    xleft, box_x
+                    xleft_current, pbc_info.xleft_prev
                 )
             else:
                 pbc_multiplier_right += get_pbc_edge_multiplier_addition(
-                    xright, box_x
+                    xright_current, pbc_info.xright_prev
                 )
 
     pbc_info = PeriodicInfo(
-- 
2.43.0


From f5ceaab61459d9d060718e90d7c7149739951713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 16/66] fix: write the impact header for every collected
 droplet, not only the first

---
 strata/spreading/collect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index e5365ae..1b2f920 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -100,6 +100,9 @@ def collect(base, **kwargs):
     times = []
     values = []
 
+    # The impact of this droplet has not been output, whatever came before it
+    write_spreading.impact = False
+
     files = list(find_datamap_files(base, **fopts))
 
     if not quiet:
-- 
2.43.0


From ddc8f6b75179a0d87ba97435ba954b534665ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 17/66] fix: count time through maps without a found spreading
 after impact

---
 strata/spreading/collect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 1b2f920..3a1c4ea 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -145,6 +145,9 @@ def collect(base, **kwargs):
                     save, time, radius, left_absolute, right_absolute, cur_path
                 )
 
+        # Time is counted from the impact, also when passing maps in which
+        # no spreading is found
+        if len(times) > 0:
             time += dt
 
         if not quiet:
-- 
2.43.0


From e50688a8e3fa158da710601917d865d4d90ea26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 18/66] fix: index interface layers exactly for any layer
 spacing

---
 strata/interface/collect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..731ab83 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -161,7 +161,9 @@ def get_yindex_for_value(y, yindex_data):
     """
 
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
-    return int((y - yindex_data.ymin) / yindex_data.dy)
+
+    # Account for inexact floating point values just below an index
+    return int((y - yindex_data.ymin) / yindex_data.dy + 1e-6)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
-- 
2.43.0


From 17be6c8aa73afb3f6b8ae1e6c53144e045e7570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 19/66] fix: collect interfaces which consist of a single layer

---
 strata/interface/collect.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 731ab83..75f7125 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -117,7 +117,8 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
     box_x, _ = flow.size()
 
     interface, pbc_info_per_y, yindex_data = update_interface_with_pbc_info(
-        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data
+        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data,
+        dy=flow.spacing[1]
     )
 
     xs = interface['X']
@@ -136,15 +137,17 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
 # Data for indexing a vector for floating point y-values.
 YIndexData = namedtuple("YIndexData", ["ymin", "ymax", "dy", "num"])
 
-def get_yindex_data(ys):
+def get_yindex_data(ys, dy=None):
     """Return the `YIndexData` corresponding to the input valuesself.
 
     Note that this assumes that all the values in the input array are
-    evenly spaced.
+    evenly spaced. The spacing is taken from the values if it is not input,
+    which has to be done if there is only one of them.
 
     """
 
-    dy = np.unique(np.diff(ys))[0]
+    if dy == None:
+        dy = np.unique(np.diff(ys))[0]
 
     return YIndexData(
         ymin=np.min(ys),
@@ -270,10 +273,10 @@ def fill_pbc_info_for_empty_y_values(pbc_info_per_y):
     return pbc_info_per_y
 
 def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
-        old_pbc_info_per_y, old_yindex_data):
+        old_pbc_info_per_y, old_yindex_data, dy=None):
     """Check whether the interface jumps for any y-value and update pbc info."""
 
-    new_yindex_data = get_yindex_data(ys)
+    new_yindex_data = get_yindex_data(ys, dy)
     new_pbc_info_per_y = transfer_values(
         old_pbc_info_per_y, old_yindex_data, new_yindex_data
     )
-- 
2.43.0


From 686177cc31072baad55788ca6ca2763f11e7aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 20/66] fix: the interface collect command does not get
 coordinates to unpack

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From acd8f487f78baa7963e446a5947cc4d023a9ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 21/66] fix: set the names of the command groups, as
 contact_line, on the groups

---
 strata/strata.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strata/strata.py b/strata/strata.py
index 7be1845..31bbd3a 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -282,8 +282,8 @@ def convert_cli(base, output, **kwargs):
 
 
 # Combined spreading tools for collection and plotting
-@strata.group()
-def spreading(name=cmd_spreading['name'], short_help=cmd_spreading['desc']):
+@strata.group(name=cmd_spreading['name'], short_help=cmd_spreading['desc'])
+def spreading():
     """View or collect spreading data of droplets."""
     pass
 
@@ -444,8 +444,8 @@ def spreading_fit_cli(files, **kwargs):
 
 
 # Combined interface tools for collectiong and plotting
-@strata.group()
-def interface(name=cmd_interface['name'], short_help=cmd_interface['desc']):
+@strata.group(name=cmd_interface['name'], short_help=cmd_interface['desc'])
+def interface():
     """Work with interface data of droplets."""
     pass
 
@@ -656,8 +656,8 @@ def interface_angle_cli(base, **kwargs):
     interface_contact_angle(base, **kwargs)
 
 # Contact line averaging wrapper
-@strata.group()
-def contact_line(name=cmd_contactline['name'], short_help=cmd_contactline['desc']):
+@strata.group(name=cmd_contactline['name'], short_help=cmd_contactline['desc'])
+def contact_line():
     """Analyze the contact line bins."""
     pass
 
@@ -790,8 +790,8 @@ def cl_sample_cli(base, labels, **kwargs):
     sample_contact_line_edges(base, labels, **kwargs)
 
 
-@strata.group()
-def view(name=cmd_flowview['name'], short_help=cmd_flowview['desc']):
+@strata.group(name=cmd_flowview['name'], short_help=cmd_flowview['desc'])
+def view():
     """Visualise the data of binned map files."""
     pass
 
-- 
2.43.0


From be9ee8e869c355317198e020de0bbac47dd0b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 22/66] fix: save averaged interfaces to disk

---
 strata/interface/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..58182ad 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,8 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coords = {'X': interface.values, 'Y': interface.index.values}
+            write_interface_data(fnout, coords, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From 051760906d0dc7cc398462aad8e4cfecbf33bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 23/66] fix: cut keeps the origin of the bins which remain

---
 droplets/flow.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..7eb87bf 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -143,27 +143,23 @@ class FlowData(object):
 
 
     def cut(self, xlim=(None, None), ylim=(None, None)):
-        max_coords = [o + n * dx
-                for o, n, dx in zip(self.origin, self.shape, self.spacing)
-                ]
-        xmin, xmax = xlim
-        xmin = xmin if xmin != None else self.origin[0]
-        xmax = xmax if xmax != None else max_coords[0]
-        flow = self.lims('X', xmin, xmax)
-
-        ymin, ymax = ylim
-        ymin = ymin if ymin != None else self.origin[1]
-        ymax = ymax if ymax != None else max_coords[1]
-        flow = flow.lims('Y', ymin, ymax)
+        flow = self.lims('X', *xlim).lims('Y', *ylim)
 
         shape = [len(np.unique(flow.data[l])) for l in ('X', 'Y')]
 
         info = {
             'spacing': self.spacing,
-            'origin': (xmin, ymin),
             'shape': shape,
             'num_bins': shape[0] * shape[1]
         }
+
+        # The origin moves by whole bins, since those are what we remove
+        if flow.data.size > 0 and self.origin != (None, None):
+            info['origin'] = [
+                    o + np.min(flow.data[l]) - np.min(self.data[l])
+                    for o, l in zip(self.origin, ('X', 'Y'))
+                ]
+
         flow.set_info(info)
 
         return flow
-- 
2.43.0


From 9e2093bed9f887a84f0bcc6f143b2b0070404fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 24/66] fix: the grid moves along with translated coordinates

---
 droplets/flow.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/droplets/flow.py b/droplets/flow.py
index 7eb87bf..9ed70ff 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -384,6 +384,18 @@ class FlowData(object):
             else:
                 raise KeyError("No label %r in object")
 
+        # The grid moves along with its coordinates
+        if label in ('X', 'Y') and np.unique(value).size == 1:
+            if flow.origin != (None, None):
+                moved = np.unique(value)[0]
+                flow.origin = [
+                        o + moved if l == label else o
+                        for o, l in zip(flow.origin, ('X', 'Y'))
+                    ]
+        elif label in ('X', 'Y'):
+            flow.origin = None
+            flow.shape = None
+
         return flow
 
 
-- 
2.43.0


From 1478040f4cfecdd19fa5acf6d3f83c85c65f70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 25/66] fix: contact lines in quiet mode have no progress to
 pass on

---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..fc5be76 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -268,6 +268,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From 66dc85f5fe6e4137441c67985873105100c34960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 26/66] fix: sampled contact lines have no spread to return

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index fc5be76..d3aded4 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -195,7 +195,7 @@ def sample_contact_line_edges(base, labels, save=None,
                 # except:
                     # std = None
 
-                samples[j].append([value, std])
+                samples[j].append([value, None])
             except Exception as exc:
                 print(
                         "error: could not add value for averaged map no. {}, "
-- 
2.43.0


From d997ca41f5272add90f5566ac80b3dd3a6f59fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 27/66] fix: contact lines of a single layer, or missing from
 some maps

---
 strata/contact_line_analysis.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index d3aded4..d0e5820 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -305,10 +305,12 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         xadj_per_edge = []
 
         for data_list in [left, right]:
-            coord_adjs, flow_data = np.array(data_list).T.tolist()
+            flow_data = [flow for _, flow in data_list]
 
-            # Get mean adjusting x coordinate of edge
-            xadj_mean = np.mean(coord_adjs, axis=0)[0]
+            # Get mean adjusting x coordinate of edge, of maps which have one
+            xadj_mean = np.mean([
+                adj[0] for adj, flow in data_list if flow.data.size > 0
+            ])
             xadj_per_edge.append(xadj_mean)
 
             avg_flow_per_edge.append(
@@ -437,12 +439,11 @@ def add_adjusted_flow(bins, direction, info):
     def get_cut_shape(data, dx, dy):
         # After sorting, the data is in y-major, x-minor order
         ys = data['Y']
-        y0 = ys[0]
-        nx = 1
 
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
-            nx += 1
+        if data.size == 0:
+            return 0, 0
 
+        nx = np.count_nonzero(np.abs(ys - ys[0]) < 0.5 * dy)
         ny = data.size // nx
 
         return nx, ny
-- 
2.43.0


From 9d7554a8469c36607a8b3d968dd8fe25fb999617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 28/66] fix: write extracted contact lines on their grid

---
 strata/contact_line_analysis.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index d0e5820..cd60f74 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -69,7 +69,13 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        info = {
+            'spacing': recombined_flow_data.spacing,
+            'shape': recombined_flow_data.shape,
+            'origin': recombined_flow_data.origin
+        }
+
+        write(next(fnout), recombined_flow_data.data, info)
 
 
 """Fuse the left and right edges in the center."""
@@ -405,9 +411,11 @@ def combine_flow_data(avg_flow, spacing):
         grid['X'] -= 0.5 * dx
         grid['Y'] -= 0.5 * dy
 
-        grid.sort(order=['X', 'Y'])
+        # Maps are written in x-major order
+        data = grid.ravel()
+        data.sort(order=['X', 'Y'])
 
-        return [(l, grid[l]) for l in grid.dtype.names]
+        return [(l, data[l]) for l in data.dtype.names]
 
     left, right = avg_flow
 
@@ -426,7 +434,15 @@ def combine_flow_data(avg_flow, spacing):
 
     ny, nx = grid.shape
 
-    return FlowData(*combined_data, info={'spacing': spacing, 'shape': (nx, ny)})
+    # The coordinates are of the corners of the bins
+    info = {
+        'spacing': spacing,
+        'shape': (nx, ny),
+        'num_bins': nx * ny,
+        'origin': (grid['X'].min(), grid['Y'].min())
+    }
+
+    return FlowData(*combined_data, info=info)
 
 
 def add_adjusted_flow(bins, direction, info):
-- 
2.43.0


From 4105b8029b595cb48c31dcb3b0775e3222642589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 29/66] fix: draw spreading curves without the removed plt.hold

---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..cdcdf5a 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..3cdf2e4 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -349,6 +349,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From f6ff33cf6e11a016c57e6891dd04831af6b7fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 30/66] fix: saving viewed spreading data is optional

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 3cdf2e4..cc0d04f 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -50,7 +50,7 @@ def view_spreading(files, **kwargs):
             tau=kwargs.pop('tau', 1.), R=kwargs.pop('R', 1.)
             )
 
-    save_path = kwargs.pop('save_xvg')
+    save_path = kwargs.pop('save_xvg', None)
     if save_path:
         try:
             write_spreading_data(save_path, synced_data)
-- 
2.43.0


From dbdf0ee004ba069b97662cc6138520fb2c3d0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 31/66] fix: read spreading data of a single point

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cc0d04f..24b2d50 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -184,7 +184,7 @@ def read_spreading_data(*files):
         def read_plain_file(filename):
             """Read a simple file, comments starting with '#'."""
 
-            data = np.loadtxt(filename, unpack=True, comments='#')
+            data = np.loadtxt(filename, unpack=True, comments='#', ndmin=2)
             times = data[0]
             all_series = [get_series(radii, times, filename, i+1)
                     for i, radii in enumerate(data[1:])]
-- 
2.43.0


From a575702625ace5b950dc45ff9a793590843a5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 32/66] fix: density gradients use the bin spacing of their own
 axis

---
 strata/view_flowmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..3cad136 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -423,7 +423,7 @@ def add_density_gradient(flow):
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], *reversed(spacing), edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -454,7 +454,7 @@ def add_evaporation(flow):
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], *reversed(spacing), edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From 00abe0bd76300e3a4030e13d037353aec119609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 33/66] fix: draw flow which is directed along an axis

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 3cad136..92e4bb8 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 9b8d61ed742aa0a83eeba92cd478bdd304ba5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 34/66] fix: sampling a quantity does not reorder the bins of
 the others

---
 strata/sample_average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..9bf3130 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -122,7 +122,8 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
                 if label == 'slip_length':
                     value, std = sample_slip_length(flow, floor=slip_floor)
                 else:
-                    value, std = sample_value(flow, label, cutoff, cutoff_label, sum, viscosity)
+                    # Some samples sort the bins, which other samples rely on
+                    value, std = sample_value(flow.copy(), label, cutoff, cutoff_label, sum, viscosity)
 
                 sampled_values[j].append(value)
                 sampled_stds[j].append(std)
-- 
2.43.0


From b699f539902bb19bce177fab7836b03c28a7d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 35/66] fix: add the fields of shown and cut labels for every
 map

---
 strata/view_flowmap.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 92e4bb8..9bc6b0a 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -261,20 +261,24 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
-        if label == 'flow':
-            flow.data = add_absolute_flow(flow.data)
-
         if label == 'visc_diss':
             label = 'visc'
+
+        used_labels = [label, cutoff_label]
+
+        if 'visc' in used_labels:
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
+        if 'flow' in used_labels:
+            flow.data = add_absolute_flow(flow.data)
+
         if label == 'evaporation':
             add_evaporation(flow)
 
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
-        if cutoff != None and cutoff_label != None:
+        if cutoff != None and cutoff_label not in [None, 'None']:
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-- 
2.43.0


From 8ce68a7894eb124f0c5299bd53e62216206153b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 36/66] fix: draw height maps with cut bins on the grid of the
 map

---
 strata/view_flowmap.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 9bc6b0a..7cbb1da 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -315,12 +315,32 @@ def height(data, info, label, **kwargs):
 
     fig, ax = create_figure(**kwargs)
 
-    ax.hist2d(xs, ys, weights=data[label], bins=info['shape'],
+    # Draw on the grid of the entire map, also if bins have been cut from it
+    lims = None
+    if data.size > 0:
+        lims = [get_grid_limits(*args) for args in zip(
+            (xs, ys), info['origin'], info['spacing'], info['shape'])]
+
+    ax.hist2d(xs, ys, weights=data[label], bins=info['shape'], range=lims,
             cmin=cmin, cmax=cmax, vmin=vmin, vmax=vmax)
 
     return fig
 
 
+def get_grid_limits(cs, origin, spacing, num):
+    """Return the limits of a grid of which bins at input coordinates remain."""
+
+    if spacing == 0.:
+        return np.min(cs) - 0.5, np.max(cs) + 0.5
+
+    # The origin is either the corner or the mid-point of the first bin
+    cmin = np.min(cs)
+    index = np.floor((cmin - origin) / spacing + 0.25)
+    start = cmin - (index + 0.5) * spacing
+
+    return start, start + num * spacing
+
+
 @decorate_graph
 def contour(data, info, label, **kwargs):
     """Draw a contour map of the data."""
-- 
2.43.0


From 6f7c7438c25c5ef5436204a695c2fd87adc81514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 37/66] fix: draw streamlines on any grid and without a cutoff

---
 strata/view_flowmap.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 7cbb1da..a9e6b64 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -90,40 +90,45 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
-
-    data = np.ma.array(data, mask=mask)
+    if cutoff_label != None and cutoff_value != None:
+        mask = (data[cutoff_label] < cutoff_value)
+    else:
+        mask = np.zeros(data.shape, dtype=bool)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    x0 = max(data['X'].min(), xmin if xmin != None else -np.inf)
+    x1 = min(data['X'].max(), xmax if xmax != None else np.inf)
+    y0 = max(data['Y'].min(), ymin if ymin != None else -np.inf)
+    y1 = min(data['Y'].max(), ymax if ymax != None else np.inf)
 
     inds = (data[xlabel] >= x0) \
         & (data[xlabel] <= x1) \
         & (data[ylabel] >= y0) \
         & (data[ylabel] <= y1)
 
-    data = data[inds]
+    data, mask = data[inds], mask[inds]
 
     x0 = data[xlabel].min()
     x1 = data[xlabel].max()
     y0 = data[ylabel].min()
     y1 = data[ylabel].max()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(np.round((x1 - x0) / dx)) + 1
+    ny = int(np.round((y1 - y0) / dy)) + 1
 
-    data = data.reshape(nx, ny).transpose()
+    order = np.argsort(data, order=[xlabel, ylabel])
+    data, mask = (a[order].reshape(nx, ny).transpose() for a in (data, mask))
 
     x = x0 + np.arange(nx) * dx
     y = y0 + np.arange(ny) * dy
 
-    u = data['U']
-    v = data['V']
+    ulabel, vlabel = labels
+    u, v, line_weights = (
+        np.ma.array(data[l], mask=mask) for l in (ulabel, vlabel, 'M'))
 
-    weights = data[colour]
-    line_weights = data['M']
+    try:
+        weights = np.ma.array(data[colour], mask=mask)
+    except Exception:
+        weights = None
 
     return x, y, u, v, weights, line_weights
 
@@ -134,8 +139,8 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     ny, nx = us.shape
 
-    density_x = nx // 30
-    density_y = ny // 30
+    density_x = max(1, nx // 30)
+    density_y = max(1, ny // 30)
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-- 
2.43.0


From eebc2eabe17d52ae40e8315a7db7ef24e115d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 38/66] fix: draw contours of added fields in order

---
 strata/view_flowmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index a9e6b64..b0a6641 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -360,6 +360,8 @@ def contour(data, info, label, **kwargs):
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
+    # Some of the added fields leave the bins in another order
+    data = np.sort(data, order=list(kwargs['coord_labels']))
     grid_data = data.reshape(info['shape'])
     xs, ys = (grid_data[l] for l in kwargs['coord_labels'])
     cs = grid_data[label]
-- 
2.43.0


From f19a4f82da7317a195a6dbbccc73472c8c70f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 39/66] fix: refuse simple binary files which end within a bin

---
 strata/dataformats/simple/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 744b293..8d01084 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -149,6 +149,9 @@ def read_binsimple(filename):
         fields = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']
         raw_data = np.fromfile(filename, dtype='float32')
 
+        if raw_data.size % len(fields) != 0:
+            raise ValueError("file ended before the end of its last bin")
+
         # Unpack into dictionary
         data = {}
         stride = len(fields)
-- 
2.43.0


From 2d3ac6826f58baaf8fbc7d868ca68858dccc7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 40/66] fix: do not read simple binary files as plaintext
 because of some labels in their values

---
 strata/dataformats/simple/read.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 8d01084..305862e 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -31,10 +31,12 @@ def read_data(filename, decimals=5):
 
             # Plaintext files start with a line of field labels. Note that
             # binary values may well be bytes which are valid text.
-            header = buf.lstrip().split(b'\n', 1)[0]
-            labels = header.replace(b'#', b' ').split()
+            header = buf.lstrip(b' \t\r\n#').split(b'\n', 1)[0]
+            labels = header.decode('latin-1').split()
 
-            return b'\0' in buf or not {b'X', b'Y'}.issubset(labels)
+            return b'\0' in buf \
+                or not all(label.isidentifier() for label in labels) \
+                or not {'X', 'Y'}.issubset(labels)
 
         if is_binary(filename):
             return read_binsimple
-- 
2.43.0


From 6f29841ec09aa157464e2ec911b2f2a425b9b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 41/66] fix: include empty data sets as empty bins when
 averaging

---
 droplets/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..6dfdf1c 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -202,6 +202,10 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    # An empty data set has no bins to project
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From bef9788ba71e538ebf18555ef26dce7bc0dcabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 42/66] fix: cut does not claim a full grid for bins which do
 not fill it

---
 droplets/flow.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index 9ed70ff..8c748e5 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -149,10 +149,13 @@ class FlowData(object):
 
         info = {
             'spacing': self.spacing,
-            'shape': shape,
-            'num_bins': shape[0] * shape[1]
+            'num_bins': flow.data.size
         }
 
+        # Bins which do not fill a grid have no shape
+        if shape[0] * shape[1] == flow.data.size:
+            info['shape'] = shape
+
         # The origin moves by whole bins, since those are what we remove
         if flow.data.size > 0 and self.origin != (None, None):
             info['origin'] = [
-- 
2.43.0


From 6ca81c205e59fce7a0cc72dc67254bd8148592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 43/66] fix: write the cutoff radius which was used in the
 spreading header

---
 strata/spreading/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 3a1c4ea..0f09c7e 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -368,7 +368,7 @@ def write_header(output_path, input_base, kwargs):
                 % (os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('floor', None), kwargs.get('dt', 1.),
-                    kwargs.get('cutoff', None), kwargs.get('include_radius', 1.),
+                    kwargs.get('cutoff', None), kwargs.get('cutoff_radius', 1.),
                     kwargs.get('cutoff_bins', 1)))
 
         fp.write(header + inputs)
-- 
2.43.0


From 1dd65494abb15e8f17e6a11039491e11f13f05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 44/66] fix: write module headers without the command line
 module imported

---
 strata/interface/angle.py | 4 ++--
 strata/spreading/fit.py   | 4 ++--
 strata/utils.py           | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..9702d63 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -139,7 +139,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
     """
 
     def get_header(path, base, height, **kwargs):
-        import strata
+        from strata.strata import version
         import time
 
         time_str = time.strftime('%c', time.localtime())
@@ -151,7 +151,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
                 "# Creation date: %s\n"
                 "# Using module version: %s\n"
                 "# \n"
-                % (__name__, time_str, strata.strata.version))
+                % (__name__, time_str, version))
 
         inputs = (
                 "# Input:\n"
diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index cdcdf5a..7bc24ee 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -191,7 +191,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
     """
 
     def write_header(path, all_series):
-        import strata
+        from strata.strata import version
         import time
 
         with open(path, 'w') as fp:
@@ -204,7 +204,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
                     "# Creation date: %s\n"
                     "# Using module version: %s\n"
                     "# \n"
-                    % (__name__, time_str, strata.strata.version))
+                    % (__name__, time_str, version))
 
             inputs = (
                     "# Input:\n"
diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..cf79962 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -423,7 +423,7 @@ def write_module_header(file, module, title):
     """Write a module creation header with title to input file."""
 
     import inspect
-    import strata
+    from strata.strata import version
     import time
 
     time_str = time.strftime('%c', time.localtime())
@@ -434,7 +434,7 @@ def write_module_header(file, module, title):
             "# Creation date: %s\n"
             "# Using module version: %s\n"
             "# \n"
-            % (title, module, time_str, strata.strata.version))
+            % (title, module, time_str, version))
 
     with open(file, 'w') as fp:
         fp.write(header)
-- 
2.43.0


From 72e5974c78a95d27e639a3fa58d05587c39037cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 45/66] fix: keep averaged bins exactly on their common grid

---
 droplets/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 6dfdf1c..2556602 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -223,6 +223,10 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
 
     projected_data[j0:j1, i0:i1] = data.reshape(ny, nx)
 
+    # The bins stay exactly on the grid, whatever the rounding of the data
+    for label in coord_labels:
+        projected_data[label] = grid[label]
+
     return projected_data.ravel()
 
 
-- 
2.43.0


From 3db8d66ea1084e854e855c662c3c65d6ec8a3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 46/66] fix: sample every bin of the circle per angle, also to
 the left and at its end

---
 droplets/sample.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..46556f0 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -50,6 +50,9 @@ def sample_per_angle_from(flow, origin, label,
     """
 
     amin = max(0., amin)
+
+    # Bins are sampled up to the input angle, also inside the final interval
+    aend = amax
     amax = min(360. - size, amax)
     out_angles = np.arange(amin, amax + size, size)
 
@@ -60,16 +63,16 @@ def sample_per_angle_from(flow, origin, label,
     dxs, dys = [flow.data[l] - o for l, o in zip(coord_labels, origin)]
     drs = np.sqrt(dxs**2 + dys**2)
 
-    # Apply radius cutoffs and calculate angles for bins
-    inds_rlim = (drs >= rmin) & (drs <= rmax)
+    # Apply radius cutoffs and calculate angles for bins (a bin at the point
+    # itself has no angle)
+    inds_rlim = (drs >= rmin) & (drs <= rmax) & (drs > 0.)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
-        * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
+    bin_rads = np.arctan2(dys[inds_rlim], dxs[inds_rlim])
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax)
+    inds_alim = (bin_degrees >= amin) & (bin_degrees <= aend)
     data_alim = data_rlim[inds_alim]
     label_data = data_alim[label]
 
-- 
2.43.0


From 859808dcdb1c5a4bfc1dcaa6657e5c33cfa952d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 47/66] fix: name the input file in the header of collected
 interfaces

---
 strata/interface/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 75f7125..4384c92 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
-- 
2.43.0


From 3bf5c7bbc51f191e60329abda4dcc06cdcdf417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 48/66] fix: refuse simple binary files which end within a
 value

---
 strata/dataformats/simple/read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 305862e..c05b358 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -1,4 +1,5 @@
 import numpy as np
+import os
 
 """Read data from simple, naive file formats."""
 
@@ -151,7 +152,8 @@ def read_binsimple(filename):
         fields = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']
         raw_data = np.fromfile(filename, dtype='float32')
 
-        if raw_data.size % len(fields) != 0:
+        # Reading values drops what remains of one that is cut short
+        if os.path.getsize(filename) % (len(fields)*raw_data.itemsize) != 0:
             raise ValueError("file ended before the end of its last bin")
 
         # Unpack into dictionary
-- 
2.43.0


From 212f2f451fb8d28b7b4c7d7ef51867c38f377b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 49/66] fix: draw streamlines without a colour label

---
 strata/view_flowmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index b0a6641..791367e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -126,6 +126,7 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
         np.ma.array(data[l], mask=mask) for l in (ulabel, vlabel, 'M'))
 
     try:
+        assert(colour != None)
         weights = np.ma.array(data[colour], mask=mask)
     except Exception:
         weights = None
-- 
2.43.0


From f61ab3200711550fb4f6a5149db711656e490fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 50/66] fix: simple maps with bins in any order were read with
 values at other bins

---
 strata/dataformats/simple/read.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index c05b358..01ae29a 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -60,6 +60,11 @@ def read_data(filename, decimals=5):
 
     xs, ys = np.meshgrid(x, y, indexing='ij')
 
+    # The bins may be in any order in the file
+    order = get_grid_order(data['X'], data['Y'], info)
+    for field in data:
+        data[field] = data[field][order]
+
     data['X'] = xs.ravel()
     data['Y'] = ys.ravel()
 
@@ -136,6 +141,31 @@ def calc_information(X, Y):
     return info
 
 
+def get_grid_order(X, Y, info):
+    """Return the indices which order bins along x, then y, on their grid.
+
+    Args:
+        X, Y (array_like): Arrays with cell positions.
+
+        info (dict): Information about the grid.
+
+    Returns:
+        ndarray: Indices in order.
+
+    """
+
+    def calc_indices(cs, c0, dc):
+        if not dc > 0.0:
+            return np.zeros(len(cs), dtype=int)
+
+        return np.round((cs - c0) / dc).astype(int)
+
+    ix, iy = (calc_indices(cs, c0, dc) for cs, c0, dc
+              in zip((X, Y), info['origin'], info['spacing']))
+
+    return np.lexsort((iy, ix))
+
+
 def read_binsimple(filename):
     """Return data and information read from a simple binary format.
 
-- 
2.43.0


From 771958986e2b6da5ad35d1cbf332a0068568268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 51/66] fix: show fitted parameters in full in the legend

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 7bc24ee..5107e94 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -171,7 +171,7 @@ def plot_fitting_data(fit_data, data, **kwargs):
     """
 
     for s_fit, s_data in zip(fit_data, data):
-        fit_label = s_fit.name.strip(s_data.name).strip()
+        fit_label = s_fit.name[len(s_data.name):].strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
         plt.plot(s_fit.index, s_fit.values, label=fit_label, **kwargs)
 
-- 
2.43.0


From f22c5db1e3917f9f92599d2cec5848b756dc8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 52/66] fix: name the time step used in headers of sampled data

---
 strata/contact_line_analysis.py | 2 +-
 strata/interface/angle.py       | 2 +-
 strata/interface/sample.py      | 2 +-
 strata/sample_average.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index cd60f74..5809be7 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -148,7 +148,7 @@ def sample_contact_line_edges(base, labels, save=None,
 
     if save:
         try:
-            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, kwargs.copy(), fopts)
+            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % save)
diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 9702d63..5900e59 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -93,7 +93,7 @@ def interface_contact_angle(base, fit=False, height=None, delta_t=1., save_xvg=N
 
     if save_xvg:
         write_angle_data(save_xvg, base, height, times, contact_angles,
-            begin=fopts['begin'], end=fopts['end'])
+            begin=fopts['begin'], end=fopts['end'], delta_t=delta_t)
 
     if kwargs.get('show', True) or kwargs.get('save_fig', None):
         kwargs.setdefault('axis', 'tight')
diff --git a/strata/interface/sample.py b/strata/interface/sample.py
index 45b83ab..a0ce8e2 100644
--- a/strata/interface/sample.py
+++ b/strata/interface/sample.py
@@ -170,7 +170,7 @@ def write_header(output_path, input_base, variable, dt, kwargs):
                 "# Time (ps) %s\n"
                 % (os.path.realpath(input_base), variable,
                     kwargs.get('begin', None), kwargs.get('end', None),
-                    kwargs.get('dt', 1.), ylabel
+                    dt, ylabel
                     ))
 
         fp.write(inputs)
diff --git a/strata/sample_average.py b/strata/sample_average.py
index 9bf3130..ae5a7bb 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -95,7 +95,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
 
     if output:
         try:
-            prepare_output(output, labels, cutoff, cutoff_label, kwargs.copy(), fopts)
+            prepare_output(output, labels, cutoff, cutoff_label, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % output)
-- 
2.43.0


From e83a4533ba1308f15f43d0ca2c6e06757fb84e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 53/66] fix: draw a figure with the colour map chosen for it

---
 strata/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index cf79962..21c18ee 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -342,7 +342,17 @@ def decorate_graph(func):
             return fargs
 
         fargs = pop_figure_kwargs(kwargs)
-        func(*args, **kwargs)
+
+        # The colour map is set for this figure only, as it is drawn
+        options = {}
+        if fargs['colormap'] != None:
+            try:
+                options['image.cmap'] = plt.get_cmap(fargs['colormap']).name
+            except ValueError as err:
+                print(err)
+
+        with plt.rc_context(options):
+            func(*args, **kwargs)
 
         plt.title(fargs['title'])
         plt.xlabel(fargs['xlabel'])
@@ -358,12 +368,6 @@ def decorate_graph(func):
         plt.xlim(fargs['xlim'])
         plt.ylim(fargs['ylim'])
 
-        if fargs['colormap'] != None:
-            try:
-                plt.set_cmap(fargs['colormap'])
-            except ValueError as err:
-                print(err)
-
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
 
-- 
2.43.0


From a0d6ece6b3a120fd56127b710e9ed39ee5e9f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 54/66] fix: save figures with the dimensions asked for in
 pixels

---
 strata/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index 21c18ee..d23bb8c 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -397,6 +397,12 @@ def decorate_graph(func):
             for ax in fig.axes:
                 ax.set_axis_off()
 
+        # Dimensions are in pixels of the figure as it is shown and saved
+        if kwargs.get('dims', None) != None:
+            fig = plt.gcf()
+            fig.set_dpi(fargs['dpi'])
+            fig.set_size_inches([v / fargs['dpi'] for v in kwargs['dims']])
+
         plt.tight_layout()
 
         if fargs['save_fig'] != None:
-- 
2.43.0


From 1b90d8beaeb17c93145fb05f04c952e5965efd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 55/66] fix: save a fit's figure when it is not shown

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 5107e94..e3a3e99 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -49,7 +49,7 @@ def fit_spreading_data(files, lims=(None, None), save_xvg=None,
     if save_xvg != None:
         write_fitting_data(save_xvg, fit_data, lims, out_lims)
 
-    if kwargs.get('show', True):
+    if kwargs.get('show', True) or kwargs.get('save_fig', None) != None:
         plot_fitting_data(fit_data, data, **kwargs)
 
     return fit_params
-- 
2.43.0


From 665cb0f89360cb00fd5b551d00438fa11e5cfdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 56/66] fix: leave no size or resolution behind with a cleared
 figure

---
 strata/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index d23bb8c..3a695ac 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -414,6 +414,11 @@ def decorate_graph(func):
         if fargs['clf']:
             plt.clf()
 
+            # The dimensions were those of this figure only
+            fig = plt.gcf()
+            fig.set_dpi(plt.rcParams['figure.dpi'])
+            fig.set_size_inches(plt.rcParams['figure.figsize'])
+
         return None
 
     return graph_wrapper
-- 
2.43.0


From d95875892e7f38f2c0faf73399b1c5b4ae02daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 57/66] fix: keep all digits of values given to FlowData as
 lists

The data type of a list was taken from its first value, so that
[0, 0.5, 1.5] was silently stored as 0, 0, 1.
---
 droplets/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index 8c748e5..9a659ef 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -275,7 +275,7 @@ class FlowData(object):
                     try:
                         atype = values.dtype
                     except AttributeError:
-                        atype = type(values[0])
+                        atype = np.asarray(values).dtype
                 types.append((label, atype))
 
             return np.dtype(types)
-- 
2.43.0


From 39b49f38b69b94bc3b9c8406fa6096fc27a79438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:02 +0000
Subject: [PATCH 58/66] fix: refuse to average data records on different
 coordinates

The documented control of the coordinates was never called, so that bins
at different positions were averaged with each other.
---
 droplets/average.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index 2556602..56e6ed6 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -131,8 +131,10 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
         control = data_records[0]
 
         for data in data_records[1:]:
-            assert np.allclose(data[xl], control[xl], atol=1e-1)
-            assert np.allclose(data[yl], control[yl], atol=1e-1)
+            if data.size != control.size or not all(
+                    np.allclose(data[l], control[l], atol=1e-3)
+                    for l in (xl, yl)):
+                raise ValueError("Input data is not on the same coordinates")
 
     def calc_arithmetic_mean(label, data_records):
         data = get_container(label)
@@ -156,6 +158,8 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
 
     xl, yl = coord_labels
 
+    assert_grids_equal(data_records)
+
     avg_data = data_records[0].copy()
     data_labels = set(avg_data.dtype.names) - set(coord_labels)
 
-- 
2.43.0


From 9ec0eded1cea012f6a4afa81c6d446eea3d1c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 59/66] fix: find the layer above the floor for any spacing of
 the layers

---
 strata/spreading/collect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 0f09c7e..2fd6bf5 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -195,7 +195,11 @@ def get_spreading_edges(flow, label, cutoff_radius, **kwargs):
 
     def get_floor_height(floor, ys):
         if floor != None:
-            return ys[np.abs(np.ceil(ys - floor) - 1).argmin()]
+            # The first layer above the floor, however far apart layers are
+            above = ys[ys > floor]
+
+            return np.min(above) if above.size > 0 else np.max(ys)
+
     xs, ys = (flow.data[l] for l in kwargs.get('coord_labels', ('X', 'Y')))
 
     floor = kwargs.pop('floor', None)
-- 
2.43.0


From 3642bab3dd8c7f5d7a2a776ba866c9cb328a0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:10 +0000
Subject: [PATCH 60/66] fix: average zero flow with the flow of the other edge
 by mass

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 5809be7..c184966 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -383,7 +383,7 @@ def combine_flow_data(avg_flow, spacing):
             grid.ravel(), left.ravel(), right.ravel()
         ):
             for (l, w) in weights:
-                if (left_bin[l] != 0.0) and (right_bin[l] != 0.0):
+                if (left_bin[w] != 0.0) and (right_bin[w] != 0.0):
                     total_weight = left_bin[w] + right_bin[w]
 
                     if total_weight != 0.0:
-- 
2.43.0


From 2b8625d1755bcd36bf427772e22865256fcb7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 61/66] fix: keep the data of a flow object when new data is
 refused

---
 droplets/flow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index 9a659ef..b490680 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -291,14 +291,16 @@ class FlowData(object):
 
         # Get record data-type and allocate memory
         array_type = get_dtype(data_list, kwargs.pop('dtype', None))
-        self.data = np.zeros((1,sizeof), dtype=array_type).ravel()
+        record = np.zeros((1,sizeof), dtype=array_type).ravel()
 
         try:
             for label, bindata in data_list:
-                self.data[label] = np.array(bindata).ravel()
+                record[label] = np.array(bindata).ravel()
         except ValueError:
             raise ValueError("added array_like objects not all of equal size.")
 
+        self.data = record
+
 
     def set_info(self, info):
         """Set system information properties.
-- 
2.43.0


From bfd56216c8abaa22c71ccaab7d0cac737871893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:06 +0000
Subject: [PATCH 62/66] fix: keep the information of a flow object when new
 information is refused

---
 droplets/flow.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index b490680..f816a48 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -317,16 +317,23 @@ class FlowData(object):
         """
 
         info_copy = info.copy()
+        previous = vars(self).copy()
 
-        self.shape = info_copy.pop('shape', None)
-        self.origin = info_copy.pop('origin', None)
-        self.spacing = info_copy.pop('spacing', None)
-        self.num_bins = info_copy.pop('num_bins', None)
-
-        if info_copy != {}:
-            bad_item = info_copy.popitem()
-            raise KeyError("Unknown key/value pair for system information: %r, %r"
-                           % (bad_item[0], bad_item[1]))
+        try:
+            self.shape = info_copy.pop('shape', None)
+            self.origin = info_copy.pop('origin', None)
+            self.spacing = info_copy.pop('spacing', None)
+            self.num_bins = info_copy.pop('num_bins', None)
+
+            if info_copy != {}:
+                bad_item = info_copy.popitem()
+                raise KeyError("Unknown key/value pair for system information: %r, %r"
+                               % (bad_item[0], bad_item[1]))
+
+        # The information is only replaced if all of it is good
+        except (KeyError, ValueError):
+            vars(self).update(previous)
+            raise
 
 
     def size(self):
-- 
2.43.0


From f5f8dc57f9ec0ff79ee4f75b21263bb0109ea521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:35 +0000
Subject: [PATCH 63/66] fix: average maps which hold their fields in different
 orders

---
 droplets/average.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index 56e6ed6..6e6785f 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -225,11 +225,12 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     i1 = i0 + nx
     j1 = j0 + ny
 
-    projected_data[j0:j1, i0:i1] = data.reshape(ny, nx)
-
-    # The bins stay exactly on the grid, whatever the rounding of the data
-    for label in coord_labels:
-        projected_data[label] = grid[label]
+    # Fields are transferred by their labels, since records can have them in
+    # different orders. The bins stay exactly on the grid, whatever the
+    # rounding of the data
+    for label in projected_data.dtype.names:
+        if label not in coord_labels:
+            projected_data[label][j0:j1, i0:i1] = data[label].reshape(ny, nx)
 
     return projected_data.ravel()
 
-- 
2.43.0


From c8b6363d065d16c57facbba5f200ff774c27d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:38 +0000
Subject: [PATCH 64/66] fix: average maps with other coordinate labels

---
 droplets/average.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index 6e6785f..e6a656c 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -57,8 +57,8 @@ def average_flow_data(input_flow_maps, weights=[],
 
     def get_flowdata(data, grid, spacing):
         ny, nx = grid.shape
-        x0 = grid[0, 0]['X']
-        y0 = grid[0, 0]['Y']
+        x0 = grid[0, 0][xl]
+        y0 = grid[0, 0][yl]
 
         info = {
                 'shape': (nx, ny),
-- 
2.43.0


From 03618da1046ddec57729654f9bc4b2fad377092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:09 +0000
Subject: [PATCH 65/66] fix: make output directories also while another run
 makes them

---
 strata/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/utils.py b/strata/utils.py
index 3a695ac..810cf7f 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -261,7 +261,7 @@ def prepare_path(func):
             if directory == "":
                 directory = "."
             if not os.path.exists(directory):
-                os.makedirs(directory)
+                os.makedirs(directory, exist_ok=True)
 
             return directory, filename
 
-- 
2.43.0


From b29b46b800b4499251db201cfeadcac521b025ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:13 +0000
Subject: [PATCH 66/66] fix: map views without a type or limits given draw as
 documented

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 791367e..fe3c44c 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -225,7 +225,7 @@ def plot_quiver(xs, ys, us, vs, weights, pivot, vlim, **kwargs):
 
     return fig
 
-def view_flowmap_2d(*files, label='M', type='heightmap',
+def view_flowmap_2d(*files, label='M', type='height',
         cutoff_label='M', cutoff=None,
         **kwargs):
     """View bin data of input files.
@@ -314,8 +314,8 @@ def create_figure(**kwargs):
 def height(data, info, label, **kwargs):
     """Draw a heightmap using a 2d histogram."""
 
-    cmin, cmax = (float(c) if c != None else c for c in kwargs['clim'])
-    vmin, vmax = (float(v) if v != None else v for v in kwargs['vlim'])
+    cmin, cmax = (float(c) if c != None else c for c in kwargs.get('clim', (None, None)))
+    vmin, vmax = (float(v) if v != None else v for v in kwargs.get('vlim', (None, None)))
 
     xs, ys = (data[l] for l in kwargs['coord_labels'])
 
@@ -357,7 +357,7 @@ def contour(data, info, label, **kwargs):
     colors = kwargs.get('contour_colours', None)
     filled = kwargs.get('filled', False)
 
-    vmin, vmax = (float(v) if v != None else v for v in kwargs['vlim'])
+    vmin, vmax = (float(v) if v != None else v for v in kwargs.get('vlim', (None, None)))
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
-- 
2.43.0

