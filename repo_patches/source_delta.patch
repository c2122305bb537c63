From bbabccad8778c26669bb325a8453503f5f6c4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:36 +0000
Subject: [PATCH 01/64] fix: give integer columns a storage format

IVar.encode and IVar.decode use self.fmt, which was never set.
---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..de4d573 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size]
         if nullable:
             self.span -= 1
-- 
2.43.0


From 81caf8a9087a87b1e0ea6d0f8f6a31b48395896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 02/64] fix: keep the null marker and the last step of numeric
 columns representable

An n-byte field holds indexes 0 .. 2**(8n) - 1.  The null marker and, for
non-nullable columns, the index of the maximum did not fit.
---
 coral/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index de4d573..9fb7649 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -42,7 +42,7 @@ class IVar:
         else:
             raise ValueError
         self.fmt = '>' + SIZE_FORMAT[self.size]
-        self.span = SIZE_SPAN[self.size]
+        self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
@@ -87,7 +87,7 @@ class FVar:
         self.maxv = maxv
         self.size = size
         self.delta = maxv - minv
-        self.span = SIZE_SPAN[size]
+        self.span = SIZE_SPAN[size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
-- 
2.43.0


From 9f73377a241f1b40aa1c81a0a8ab28c8400635ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:13 +0000
Subject: [PATCH 03/64] fix: import collections in rg

Reader could not be constructed.
---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..4563186 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -79,6 +79,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_SET) seeks from the start of the stream (default)
 #   s.seek(offset, io.SEEK_CUR) seeks from current position
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
+import collections
 import io
 import struct
 
-- 
2.43.0


From 3fec2623aa35897efb3c66c0ad49339cb4def68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 04/64] fix: make RangeGrid reads independent of failed reads

After a read failed half-way, the file position no longer matched the stream
cursor and the next sequential read returned rows of the wrong place.
---
 coral/rg.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4563186..04d4829 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -249,25 +249,29 @@ class Reader:
         self.row = GRow(*fields)
         self.nt = collections.namedtuple("Row", (field.name for field in fields))
         self.datapos = rg.tell()
+        # Position of each entity, so that no read depends on previous ones.
+        self.offsets = []
+        offset = self.datapos
+        for eid, elens in self.index:
+            self.offsets.append(offset)
+            offset += self.row.size * sum(elens)
 
     def read(self, id_=None):
         rg = self.rg
+        idx = self.idx
         if id_ is not None:
-            idx, offset = 0, 0
-            for eid, elens in self.index:
+            for idx, (eid, elens) in enumerate(self.index):
                 if eid == str(id_):
                     break
-                idx += 1
-                offset += self.row.size * sum(elens)
             else:
                 raise KeyError("id not found: {}".format(id_))
-            self.idx = idx
-            rg.seek(self.datapos + offset)
+        elens = self.index[idx][1]
+        rg.seek(self.offsets[idx])
         segs = []
-        for nrows in self.index[self.idx][1]:
+        for nrows in elens:
             rows = [self.nt(*self.row.decode(rg.read(self.row.size))) for i in range(nrows)]
             segs.append(rows)
-        self.idx += 1
+        self.idx = idx + 1
         return segs
 
     def close(self):
-- 
2.43.0


From cd371745552143bd5448c67a38ccbcf61dd6f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 05/64] fix: stop at the end of a truncated RangeGrid header

The column name loop never ended at end of file.
---
 coral/rg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index 04d4829..4282cbd 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -224,6 +224,8 @@ class Reader:
             bs = b''
             b = rg.read(1)
             while b != b'\x00':
+                if not b:
+                    raise EOFError("truncated header")
                 bs += b
                 b = rg.read(1)
             name = bs.decode("ascii")
-- 
2.43.0


From db8b483a9c7b17edddc4108502dbd9b54318d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 06/64] fix: read back entities without segments and IDs with
 spaces

---
 coral/rg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4282cbd..cb01a02 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,9 +135,9 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From a99747f71730f22fb092864a52ae2916c9fe6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 07/64] fix: refuse a truncated RangeGrid index

An index cut in the middle of its last number or ID (the writer died or the
disk was full) was accepted and gave truncated entities.
---
 coral/rg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index cb01a02..3b929aa 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -130,14 +130,20 @@ def _writeindex(path, index):
             md.write("{} {}\n".format(eid, len(elens)))
             md.write(" ".join(str(length) for length in elens) + '\n')
 
+def _readline(md):
+    line = md.readline()
+    if not line.endswith("\n"):
+        raise EOFError("truncated index")
+    return line
+
 def _readindex(path):
     index = []
     with open(path, "r") as md:
-        n = int(md.readline())
+        n = int(_readline(md))
         for i in range(n):
-            eid, ensegs = md.readline().rsplit(" ", 1)
+            eid, ensegs = _readline(md).rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split()]
+            elens = [int(s) for s in _readline(md).split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From b8588c9be3aff02e9f2385c062c73c245ba82dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 08/64] fix: drop the index of the data set being replaced

If writing stopped before close(), the old index was combined with new rows.
---
 coral/rg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3b929aa..5f73976 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -81,6 +81,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import collections
 import io
+import os
 import struct
 
 from .grid import IVar, FVar, SVar, GRow
@@ -151,6 +152,11 @@ class Writer:
 
     def __init__(self, path, row):
         self.path = path
+        # The index of a previous data set does not describe the new data.
+        try:
+            os.remove(self.path + ".md")
+        except FileNotFoundError:
+            pass
         self.rg = open(self.path + ".rg", "wb")
         assert self.rg.seekable()
         self.row = row
-- 
2.43.0


From c5a0da006aa39feb591165481d4307ccbf145d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 09/64] fix: a failed RangeGrid write leaves no trace

Rows stored before a value was rejected, or before an I/O error, shifted all
later entities.
---
 coral/rg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 5f73976..b8b890d 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -189,19 +189,25 @@ class Writer:
             if isinstance(field, (IVar, FVar)):
                 writesvlv(rg, field.minv)
                 writesvlv(rg, field.maxv)
+        self.end = rg.tell()
 
     def write(self, segs, id_=None):
         rg = self.rg
         if id_ is None:
             id_ = len(self.index)
         lens = []
+        data = []
         for rows in segs:
             length = 0
             for r in rows:
-                data = self.row.encode(*r)
-                rg.write(data)
+                data.append(self.row.encode(*r))
                 length += 1
             lens.append(length)
+        # A write that failed may have left part of its rows behind.
+        rg.seek(self.end)
+        for d in data:
+            rg.write(d)
+        self.end += self.row.size * sum(lens)
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From 560c5725b59d85ba80aeb0c1c536d5f5d1d3c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 10/64] fix: stop at the end of a truncated P file header

Reading a name never ended at end of file.
---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..f5cdb12 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -116,6 +116,8 @@ def readascii(f):
     bs = b""
     b = f.read(1)
     while b != b'\x00':
+        if not b:
+            raise EOFError("truncated name")
         bs += b
         b = f.read(1)
     return bs.decode("ascii")
-- 
2.43.0


From 614bc30fcc2019765e4a6d34b707f345515dc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:22 +0000
Subject: [PATCH 11/64] fix: wrap latitudes above 90 downwards

The loop never ended.
---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index f5cdb12..c20de4c 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -174,7 +174,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 8b1f8fabe864e9e4570d72571daec2ee50bde3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:24 +0000
Subject: [PATCH 12/64] fix: keep quantised coordinates inside their integer
 range

8-byte coordinates at the upper end of the bounding range, and values a
rounding error below its lower end, could not be packed.
---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index c20de4c..69b0453 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -209,6 +209,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Rounding may go past the ends of the range.
+                ulon = min(max(ulon, 0), self.umax)
+                ulat = min(max(ulat, 0), self.umax)
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From d183d1ddf3f88f77fa36f8522596c55af44102df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:25 +0000
Subject: [PATCH 13/64] fix: store entities whose extent is a single grid line

An entity with all its longitudes (or latitudes) on one line of the bounding
range grid, such as 180, raised ZeroDivisionError.
---
 coral/pf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 69b0453..07ced21 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -196,6 +196,11 @@ class Writer:
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
         y1 = math.ceil((bb.y1 + 90) * UMAX2 / 180)
+        # The range of an axis cannot be empty.
+        if x0 == x1:
+            x0, x1 = (x0, x1 + 1) if x1 < UMAX2 else (x0 - 1, x1)
+        if y0 == y1:
+            y0, y1 = (y0, y1 + 1) if y1 < UMAX2 else (y0 - 1, y1)
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-- 
2.43.0


From 40bbce897ee81aa56ccfea00ed69566ebd4cd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:26 +0000
Subject: [PATCH 14/64] fix: do not drop the point of a single-point polygon

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 07ced21..0e60ab3 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -179,7 +179,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-- 
2.43.0


From 63b1d03c8a34779b56a0bc7126e4678812c96423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 15/64] fix: include polygons without area in the bounding
 range

A polygon with all its longitudes (or latitudes) equal did not extend the
range of the entity and its points could not be represented.
---
 coral/pf.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 0e60ab3..72fd3a6 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -183,14 +183,9 @@ class Writer:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-        bb = None
-        partlen = []
-        for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
-            partlen.append(len(part))
+        # Boxes without area are ignored when boxes are merged.
+        bb = bbox.BBox([point for part in parts for point in part])
+        partlen = [len(part) for part in parts]
         self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
-- 
2.43.0


From e3fa9f46e33fe7e21173569dacda4abc1fe99371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 16/64] fix: a rejected P file entity leaves no trace

The lists describing the entities got out of step, and a name that cannot be
stored was only refused by close(), which then never succeeded.
---
 coral/pf.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 72fd3a6..efbb4c0 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -182,11 +182,15 @@ class Writer:
             if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
-        self.names.append(name)
+        # Everything is checked and encoded before the entity is accepted.
+        if b'\x00' in name.encode("ascii"):
+            raise ValueError("invalid name: {!r}".format(name))
+        points = [point for part in parts for point in part]
+        if not points:
+            raise ValueError("entity without points: {!r}".format(name))
         # Boxes without area are ignored when boxes are merged.
-        bb = bbox.BBox([point for part in parts for point in part])
+        bb = bbox.BBox(points)
         partlen = [len(part) for part in parts]
-        self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
@@ -199,7 +203,9 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-        self.bboxes.append((x0, x1, y0, y1))
+        bounds = x0, x1, y0, y1
+        errs = []
+        buffers = []
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
@@ -216,8 +222,13 @@ class Writer:
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
                 err = coord.haversine(lon1, lat1, lon2, lat2)
-                self.errs.append(err)
-                self.buffers.append(data)
+                errs.append(err)
+                buffers.append(data)
+        self.names.append(name)
+        self.partlens.append(partlen)
+        self.bboxes.append(bounds)
+        self.errs.extend(errs)
+        self.buffers.extend(buffers)
 
     def close(self):
         with open(self.path, "wb") as pf:
-- 
2.43.0


From 6ab42bb55728fb55e247ca80e130cafdc3c59667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 17/64] fix: keep shapefile.Writer.poly from changing and
 keeping its arguments

Caller-owned rings and points were extended in place and kept, tuples were
refused as open rings, and the default part types were shared by all calls.
---
 coral/shapefile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..1e6c1e0 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -947,6 +947,8 @@ class Writer:
         polyShape = _Shape(shapeType)
         polyShape.parts = []
         polyShape.points = []
+        # The lists of the caller are neither changed nor kept
+        parts = [list(part) for part in parts]
         # Make sure polygons are closed
         if shapeType in (5,15,25,31):
             for part in parts:
@@ -955,18 +957,15 @@ class Writer:
         for part in parts:
             polyShape.parts.append(len(polyShape.points))
             for point in part:
-                # Ensure point is list
-                if not isinstance(point, list):
-                    point = list(point)
+                point = list(point)
                 # Make sure point has z and m values
                 while len(point) < 4:
                     point.append(0)
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
-            polyShape.partTypes = partTypes
+                partTypes = [polyShape.shapeType] * len(parts)
+            polyShape.partTypes = list(partTypes)
         self._shapes.append(polyShape)
 
     def field(self, name, fieldType="C", size="50", decimal=0):
-- 
2.43.0


From 4eb587f90018ba52e40846226f3350d100d3013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 18/64] fix: store and read MultiPointZ/M points and Z shapes

Z polylines, polygons and multipatches could not be saved, the points of
MultiPointZ and MultiPointM were neither written nor read, and the file length
in the header left out the measures of Z types and MultiPointM.
---
 coral/shapefile.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 1e6c1e0..405d5bf 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -351,7 +351,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -615,12 +615,15 @@ class Writer:
                 os.makedirs(pth)
             return open(f, "wb")
 
-    def __shpFileLength(self):
-        """Calculates the file length of the shp file."""
+    def __shpFileLength(self, shapes=None):
+        """Calculates the file length of a shp file with the given shapes
+        (all shapes by default)."""
+        if shapes is None:
+            shapes = self._shapes
         # Start with header length
         size = 100
         # Calculate size of all shapes
-        for s in self._shapes:
+        for s in shapes:
             # Add in record header and shape type fields
             size += 12
             # nParts and nPoints do not apply to all shapes
@@ -641,7 +644,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -656,7 +659,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if self.shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
@@ -810,7 +813,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -822,7 +825,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
@@ -834,8 +837,10 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    if hasattr(s, "z"):
+                        f.write(pack("<%sd" % len(s.z), *s.z))
+                    else:
+                        [f.write(pack("<d", p[2])) for p in s.points]
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
-- 
2.43.0


From 30234b09e672ff90fd20d87f05420f661c18519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 19/64] fix: read back the measures of a shapefile

They were skipped whenever 0 was one of the two ends of the range in the file
header, which is always the case for files written by this module because the
range was extended to 0.
---
 coral/shapefile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 405d5bf..9b0b19a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -366,8 +366,8 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values if the record is long enough to hold them
+        if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + nPoints * 8:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
@@ -701,13 +701,14 @@ class Writer:
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
+        m = []
         for s in shapes:
             try:
                 for p in s.points:
                     m.append(p[3])
             except IndexError:
                 pass
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def bbox(self):
-- 
2.43.0


From a0b38557ae627357724e1c26d031e9e948743d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:08 +0000
Subject: [PATCH 20/64] fix: save null shapes

Null shapes were given the type of the file, or broke the bounding box, so a
shapefile containing one could not be saved.  A shapefile without shapes could
not be saved either.
---
 coral/shapefile.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9b0b19a..8d97bc0 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -615,6 +615,20 @@ class Writer:
                 os.makedirs(pth)
             return open(f, "wb")
 
+    def __fileType(self):
+        """Returns the type of the first shape that is not null."""
+        for s in self._shapes:
+            if s.shapeType != NULL:
+                return s.shapeType
+        return NULL
+
+    def __recordType(self, s):
+        """Returns the type to be stored for a shape. Only null shapes and the
+        shapes of a Multipatch file keep their own type."""
+        if s.shapeType == NULL or self.shapeType == 31:
+            return s.shapeType
+        return self.shapeType
+
     def __shpFileLength(self, shapes=None):
         """Calculates the file length of a shp file with the given shapes
         (all shapes by default)."""
@@ -624,6 +638,7 @@ class Writer:
         size = 100
         # Calculate size of all shapes
         for s in shapes:
+            shapeType = self.__recordType(s)
             # Add in record header and shape type fields
             size += 12
             # nParts and nPoints do not apply to all shapes
@@ -635,43 +650,43 @@ class Writer:
             if hasattr(s,'points'):
                 nPoints = len(s.points)
             # All shape types capable of having a bounding box
-            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
+            if shapeType in (3,5,8,13,15,18,23,25,28,31):
                 size += 32
             # Shape types with parts
-            if self.shapeType in (3,5,13,15,23,25,31):
+            if shapeType in (3,5,13,15,23,25,31):
                 # Parts count
                 size += 4
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
+            if shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
                 size += 16 * nPoints
             # Calc size of part types for Multipatch (31)
-            if self.shapeType == 31:
+            if shapeType == 31:
                 size += nParts * 4
             # Calc z extremes and values
-            if self.shapeType in (13,15,18,31):
+            if shapeType in (13,15,18,31):
                 # z extremes
                 size += 16
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (13,15,18,23,25,28,31):
+            if shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
                 size += 8 * nPoints
             # Calc a single point
-            if self.shapeType in (1,11,21):
+            if shapeType in (1,11,21):
                 size += 16
             # Calc a single Z value
-            if self.shapeType == 11:
+            if shapeType == 11:
                 size += 8
             # Calc a single M value
-            if self.shapeType in (11,21):
+            if shapeType in (11,21):
                 size += 8
         # Calculate size as 16-bit words
         size //= 2
@@ -684,9 +699,13 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if not s.points:
+                continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x:
+            return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
@@ -800,8 +819,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
-                s.shapeType = self.shapeType
+            s.shapeType = self.__recordType(s)
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
             if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
@@ -1015,7 +1033,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__fileType()
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1025,7 +1043,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__fileType()
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From 08faab30097cc1e9a179d273303c9bd786efec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 21/64] fix: do not carry record positions from one save of a
 shapefile to the next

The index written by the second and later saves described the shapes of the
first save, and saveShx() alone did not work.
---
 coral/shapefile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8d97bc0..bbdf622 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -590,9 +590,6 @@ class Writer:
         self.shp = None
         self.shx = None
         self.dbf = None
-        # Geometry record offsets and lengths for writing shx file.
-        self._offsets = []
-        self._lengths = []
         # Use deletion flags in dbf? Default is false (0).
         self.deletionFlag = 0
         self.encoding = encoding
@@ -813,7 +810,6 @@ class Writer:
         f.seek(100)
         recNum = 1
         for s in self._shapes:
-            self._offsets.append(f.tell())
             # Record number, Content length place holder
             f.write(pack(">2i", recNum, 0))
             recNum += 1
@@ -913,7 +909,6 @@ class Writer:
             # Finalize record length as 16-bit words
             finish = f.tell()
             length = (finish - start) // 2
-            self._lengths.append(length)
             # start - 4 bytes is the content length field
             f.seek(start-4)
             f.write(pack(">i", length))
@@ -923,9 +918,13 @@ class Writer:
         """Writes the shx records."""
         f = self.__getFileObj(self.shx)
         f.seek(100)
-        for i in range(len(self._shapes)):
-            f.write(pack(">i", self._offsets[i] // 2))
-            f.write(pack(">i", self._lengths[i]))
+        # Offset of the first record and length of the headers, as 16-bit words
+        offset, shpHeader, recordHeader = 50, 50, 4
+        for s in self._shapes:
+            length = self.__shpFileLength([s]) - shpHeader
+            f.write(pack(">i", offset))
+            f.write(pack(">i", length - recordHeader))
+            offset += length
 
     def __dbfRecords(self):
         """Writes the dbf records."""
-- 
2.43.0


From bf0609118108d3a7a76e07c8657bebcf8cbd8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 22/64] fix: size dbf values in bytes, not in characters

A value with characters that take more than one byte made its record too long
and shifted all the following ones.
---
 coral/shapefile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index bbdf622..fff918f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -936,13 +936,16 @@ class Writer:
                 fieldType = fieldType.upper()
                 size = int(size)
                 if fieldType.upper() == "N":
-                    value = str(value).rjust(size)
+                    value = self.b(str(value)).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = self.b(str(value)[0].upper())
                 else:
-                    value = str(value)[:size].ljust(size)
+                    value = self.b(str(value))
+                    if len(value) > size:
+                        # Cut at the end of a character
+                        value = self.b(value[:size].decode(self.encoding, 'ignore'))
+                    value = value.ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From bb6d666c70ff3f313c6efbdb8843be4310269c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 23/64] fix: fill missing dbf values with blanks

A record that names only some of the fields had its values stored under other
fields, and a record older than a field was stored too short.
---
 coral/shapefile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index fff918f..f726533 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -930,6 +930,8 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
+            # Fields may have been added after the record
+            record = list(record) + [""] * (len(self.fields) - len(record))
             if not self.fields[0][0].startswith("Deletion"):
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
@@ -1020,6 +1022,8 @@ class Writer:
                         record.append("")
                     else:
                         record.append(val)
+                elif not field[0].startswith("Deletion"):
+                    record.append("")
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 3b9285830dfcafa51406bebd7347cb061f370615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 24/64] fix: close the files of a shapefile save also when it
 fails

The open file of a failed save kept buffered data, which was written when the
object was collected, possibly over the files of a later save.  Files saved one
by one by path were not closed at all.
---
 coral/shapefile.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index f726533..e1c8428 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1041,8 +1041,13 @@ class Writer:
         if not self.shapeType:
             self.shapeType = self.__fileType()
         self.shp = self.__getFileObj(target)
-        self.__shapefileHeader(self.shp, headerType='shp')
-        self.__shpRecords()
+        try:
+            self.__shapefileHeader(self.shp, headerType='shp')
+            self.__shpRecords()
+        finally:
+            # Close the file if it was opened here
+            if self.shp is not target:
+                self.shp.close()
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -1051,16 +1056,26 @@ class Writer:
         if not self.shapeType:
             self.shapeType = self.__fileType()
         self.shx = self.__getFileObj(target)
-        self.__shapefileHeader(self.shx, headerType='shx')
-        self.__shxRecords()
+        try:
+            self.__shapefileHeader(self.shx, headerType='shx')
+            self.__shxRecords()
+        finally:
+            # Close the file if it was opened here
+            if self.shx is not target:
+                self.shx.close()
 
     def saveDbf(self, target):
         """Save a dbf file."""
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.dbf'
         self.dbf = self.__getFileObj(target)
-        self.__dbfHeader()
-        self.__dbfRecords()
+        try:
+            self.__dbfHeader()
+            self.__dbfRecords()
+        finally:
+            # Close the file if it was opened here
+            if self.dbf is not target:
+                self.dbf.close()
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
@@ -1085,11 +1100,8 @@ class Writer:
                 target = temp.name
                 generated = True         
             self.saveShp(target)
-            self.shp.close()
             self.saveShx(target)
-            self.shx.close()
             self.saveDbf(target)
-            self.dbf.close()
             if generated:
                 return target
 class Editor(Writer):
-- 
2.43.0


From 59bdc158e5d2e5db95cd786f0b5f80347843a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:31 +0000
Subject: [PATCH 25/64] fix: drop the index and attributes of the shapefile
 being replaced

A save that stopped half-way left new shapes next to the old index and records,
and the mixture could be read without an error.
---
 coral/shapefile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index e1c8428..d750c7c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1099,6 +1099,13 @@ class Writer:
                 temp = tempfile.NamedTemporaryFile(prefix="shapefile_",dir=os.getcwd())
                 target = temp.name
                 generated = True         
+            # An interrupted save must not be combined with the remaining files
+            # of a previous one
+            for ext in ('.dbf', '.shx'):
+                try:
+                    os.remove(os.path.splitext(target)[0] + ext)
+                except FileNotFoundError:
+                    pass
             self.saveShp(target)
             self.saveShx(target)
             self.saveDbf(target)
-- 
2.43.0


From d02d60dd26337975fd847bd12e8066f532d3a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 26/64] fix: let shapefile iterators keep their own position

Any other read on the same reader between two steps of iterShapes() or
iterRecords() made them skip, repeat or misread entries.
---
 coral/shapefile.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d750c7c..5cf84ee 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -445,10 +445,14 @@ class Reader:
         for handling large shapefiles."""
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
-        self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        length = self.shpLength = shp.tell()
+        # Other reads may move the file position between two shapes
+        pos = 100
+        while pos < length:
+            shp.seek(pos)
+            shape = self.__shape()
+            pos = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -561,8 +565,11 @@ class Reader:
         if not self.numRecords:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        pos = self.__dbfHeaderLength()
+        recSize = self.__recordFmt()[1]
         for i in xrange(self.numRecords):
+            # Other reads may move the file position between two records
+            f.seek(pos + i * recSize)
             r = self.__record()
             if r:
                 yield r
-- 
2.43.0


From 207f38954d5c2e9bfe71e044a51037d02938822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:02 +0000
Subject: [PATCH 27/64] fix: do not keep a partially read shapefile index

After a read error the offsets read so far were taken for the whole index.
---
 coral/shapefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 5cf84ee..62ce01d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -404,10 +404,12 @@ class Reader:
             numRecords = shxRecordLength // 8
             # Jump to the first record.
             shx.seek(100)
+            offsets = []
             for r in range(numRecords):
                 # Offsets are 16-bit words just like the file length
-                self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
+                offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
+            self._offsets = offsets
         if not i == None:
             return self._offsets[i]
 
-- 
2.43.0


From 0fa7336e2b080255bf598308ec717c67d4055025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:03 +0000
Subject: [PATCH 28/64] fix: index shapes and records like a list

The first entry could not be reached from the end (-n), a shapefile without
records was read past its header, and without an index file an index out of
range was a TypeError.
---
 coral/shapefile.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 62ce01d..15eb043 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -306,9 +306,8 @@ class Reader:
     def __restrictIndex(self, i):
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
-        if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
+        if self.numRecords is not None:
+            if not -self.numRecords <= i < self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
         return i
@@ -424,6 +423,9 @@ class Reader:
             for j,k in enumerate(self.iterShapes()):
                 if j == i:
                     return k
+            if i < 0:
+                return self.shapes()[i]
+            raise IndexError("Shape or Record index out of range.")
         shp.seek(offset)
         return self.__shape()
 
@@ -492,7 +494,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -540,7 +542,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -550,7 +552,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -564,7 +566,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         pos = self.__dbfHeaderLength()
-- 
2.43.0


From 4aa7e0b203b245ef6bb50d2d00fe499bc19e16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 29/64] fix: forget the previous shapefile when loading another
 one

Its fields, index and record count were kept and mixed with the new ones, and
a load that failed could not be repeated.
---
 coral/shapefile.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 15eb043..360cf80 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -274,19 +274,26 @@ class Reader:
         argument."""
         if shapefile:
             (shapeName, ext) = os.path.splitext(shapefile)
-            self.shapeName = shapeName
             try:
-                self.shp = open("%s.shp" % shapeName, "rb")
+                shp = open("%s.shp" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.shp" % shapeName)
             try:
-                self.shx = open("%s.shx" % shapeName, "rb")
+                shx = open("%s.shx" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.shx" % shapeName)
             try:
-                self.dbf = open("%s.dbf" % shapeName, "rb")
+                dbf = open("%s.dbf" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.dbf" % shapeName)
+            self.shapeName = shapeName
+            self.shp, self.shx, self.dbf = shp, shx, dbf
+            # Forget what is known about a previous shapefile
+            self._offsets = []
+            self.shpLength = None
+            self.numRecords = None
+            self.fields = []
+            self.__dbfHdrLength = 0
         if self.shp:
             self.__shpHeader()
         if self.dbf:
@@ -464,6 +471,7 @@ class Reader:
             if not self.dbf:
                 raise ShapefileException("Shapefile Reader requires a shapefile or file-like object. (no dbf file found)")
             dbf = self.dbf
+            dbf.seek(0)
             (self.numRecords, self.__dbfHdrLength) = \
                     unpack("<xxxxLH22x", dbf.read(32))
         return self.__dbfHdrLength
@@ -475,6 +483,8 @@ class Reader:
         dbf = self.dbf
         headerLength = self.__dbfHeaderLength()
         numFields = (headerLength - 33) // 32
+        fields = []
+        dbf.seek(32)
         for field in range(numFields):
             fieldDesc = list(unpack("<11sc4xBB14x", dbf.read(32)))
             name = 0
@@ -487,10 +497,11 @@ class Reader:
             fieldDesc[name] = self.u(fieldDesc[name])
             fieldDesc[name] = fieldDesc[name].lstrip()
             fieldDesc[1] = self.u(fieldDesc[1])
-            self.fields.append(fieldDesc)
+            fields.append(fieldDesc)
         terminator = dbf.read(1)
         assert terminator == self.b("\r")
-        self.fields.insert(0, ('DeletionFlag', 'C', 1, 0))
+        fields.insert(0, ('DeletionFlag', 'C', 1, 0))
+        self.fields = fields
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-- 
2.43.0


From e98bd3dd04c90fe34814eadc7ffcc2dfa7b5b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:38 +0000
Subject: [PATCH 30/64] fix: read blank dbf values as text

They were returned as undecoded bytes.
---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 360cf80..f7bfe0e 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -525,7 +525,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append(self.u(value).strip())
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From e431fbdec757cac43e79ef526e65ff21e93d53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 31/64] fix: pair shapes with their own records after a deleted
 record

Deleted records were left out before pairing, so that all later shapes got the
record of their successor.
---
 coral/shapefile.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index f7bfe0e..a5f6e41 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -574,9 +574,10 @@ class Reader:
                 records.append(r)
         return records
 
-    def iterRecords(self):
+    def iterRecords(self, deleted=False):
         """Serves up records in a dbf file as an iterator.
-        Useful for large shapefiles or dbf files."""
+        Useful for large shapefiles or dbf files. Deleted records are
+        skipped, or served as None if asked for."""
         if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
@@ -586,7 +587,7 @@ class Reader:
             # Other reads may move the file position between two records
             f.seek(pos + i * recSize)
             r = self.__record()
-            if r:
+            if r or deleted:
                 yield r
 
     def shapeRecord(self, i=0):
@@ -600,7 +601,7 @@ class Reader:
         all records in a shapefile."""
         shapeRecords = []
         return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+                                for rec in zip(self.shapes(), self.iterRecords(deleted=True)) if rec[1]]
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From 34907114cab8c9ebe2fe6ebe651e6fe71841ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 32/64] fix: read the shapefile header again if reading it
 failed half-way

---
 coral/shapefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a5f6e41..1127ef5 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -326,7 +326,7 @@ class Reader:
         shp = self.shp
         # File length (16-bit word * 2 = bytes)
         shp.seek(24)
-        self.shpLength = unpack(">i", shp.read(4))[0] * 2
+        shpLength = unpack(">i", shp.read(4))[0] * 2
         # Shape type
         shp.seek(32)
         self.shapeType= unpack("<i", shp.read(4))[0]
@@ -336,6 +336,8 @@ class Reader:
         self.elevation = _Array('d', unpack("<2d", shp.read(16)))
         # Measure
         self.measure = _Array('d', unpack("<2d", shp.read(16)))
+        # The header counts as read only when it was read completely
+        self.shpLength = shpLength
 
     def __shape(self):
         """Returns the header info and geometry for a single shape."""
-- 
2.43.0


From 5ec9e2ac9fff6d5acf417ebfa298376becf57a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:07 +0000
Subject: [PATCH 33/64] fix: keep track of one ink on a canvas, set as gray or
 as color

---
 coral/vector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..0c1b9a1 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -81,10 +81,13 @@ class Canvas:
         self.bbox = bbox.BBox()
         self.state = PSDEFAULTS.copy()
         if bgcolor is not None:
+            # Gray and color are two ways of setting the same ink
             if isinstance(bgcolor, tuple):
                 self.state['color'] = bgcolor
+                self.state['gray'] = None
             else:
                 self.state['gray'] = bgcolor
+                self.state['color'] = None
         self.deps = set()
 
     def copy(self):
@@ -104,6 +107,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +115,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From c7cf0277ef3611e05e6da2b0c2a0198fff496e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 34/64] fix: know that grestore brings back the ink used before
 a fill

---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 0c1b9a1..d92e2cd 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -147,6 +147,7 @@ class Canvas:
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
+            state = self.state.copy()
             if stroke is not None:
                 self.lines.append("gs")
             self.setink(fill)
@@ -154,6 +155,7 @@ class Canvas:
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -197,6 +199,7 @@ class Canvas:
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
+            state = self.state.copy()
             if stroke is not None:
                 self.lines.append("gs")
             self.setink(fill)
@@ -204,6 +207,7 @@ class Canvas:
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -220,6 +224,7 @@ class Canvas:
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
+            state = self.state.copy()
             if stroke is not None:
                 self.lines.append("gs")
             self.setink(fill)
@@ -227,6 +232,7 @@ class Canvas:
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From 990ad8a4b19a536c9b9a46386677b06d657bd57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 35/64] fix: do not keep the list passed to Canvas.setdash

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index d92e2cd..4752991 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -134,6 +134,7 @@ class Canvas:
         self.state['width'] = w
 
     def setdash(self, pattern, offset=0):
+        pattern = list(pattern)
         if self.state['dash'] == (pattern, offset):
             return
         psarray = "[{}]".format(" ".join(map(str, pattern)))
-- 
2.43.0


From bb1dd4bffde01d03417099600b278bc0ae1a632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:12 +0000
Subject: [PATCH 36/64] fix: do not connect a circle to a previous text

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index 4752991..0ca0382 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -145,6 +145,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
-- 
2.43.0


From 3c4708dc486665cbc8f120b0bf2df45c56ba0950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 37/64] fix: escape parentheses and backslashes in texts

---
 coral/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 0ca0382..5a6319e 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -243,6 +243,9 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        text = str(text)
+        for c in "\\()":
+            text = text.replace(c, "\\" + c)
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From 026e21b6410cd182f3f20c668090909853316a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 38/64] fix: do not ignore boxes without area when boxes are
 merged

---
 coral/bbox.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..39c6fac 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -66,8 +66,10 @@ class BBox:
         return bool(self.area())
 
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        # Boxes without area, like those of straight lines, are not empty.
+        empty = BBox()
+        if self == empty: return other
+        if other == empty: return self
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From 9e5faefd87a53ec9d0ad76494fe61d4874227937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:25 +0000
Subject: [PATCH 39/64] fix: text is not placed by the path of an item left
 unpainted

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index 5a6319e..601326c 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -246,6 +246,7 @@ class Canvas:
         text = str(text)
         for c in "\\()":
             text = text.replace(c, "\\" + c)
+        self.lines.append("np")
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From 38d2f75dfec145c7c6e85693bf1be2bb67e558e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 40/64] fix: rounded polygons leave nothing on the operand
 stack

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 601326c..ba028aa 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -222,7 +222,7 @@ class Canvas:
         line = "{} {} m".format(*startend)
         self.lines.append(line)
         for (x1, y1), (x2, y2) in zip(poly[1:], poly[2:] + poly[:1]):
-            line = "{} {} {} {} {} arcto".format(x1, y1, x2, y2, radius)
+            line = "{} {} {} {} {} arct".format(x1, y1, x2, y2, radius)
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
-- 
2.43.0


From 2113f59418e8e1990625f0dfb08e6e32109db074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:59 +0000
Subject: [PATCH 41/64] fix: each export uses a temporary file of its own and
 removes it

---
 coral/vector.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index ba028aa..61ea9ce 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -325,12 +325,15 @@ class Canvas:
 
     def export(self, path, device='png256', *args, **kwargs):
         # useful devices: png{16,48,256,mono,gray,alpha}
-        pspath = "/tmp/tempeps.ps"
-        self.save(pspath, *args, **kwargs)
-        cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
-        ret = subprocess.call(cmd, shell=True)
-        os.remove(pspath)
+        fd, pspath = tempfile.mkstemp(suffix=".ps")
+        try:
+            os.close(fd)
+            self.save(pspath, *args, **kwargs)
+            cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
+            cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+            ret = subprocess.call(cmd, shell=True)
+        finally:
+            os.remove(pspath)
         return ret
 
 def export(pspath, output, device='png256'):
-- 
2.43.0


From 82209f72b26fab33d1d0b903b7edd3c4296c2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 42/64] fix: quote paths handed to the shell

---
 coral/vector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 61ea9ce..4a9c723 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -20,6 +20,7 @@
 
 import os
 import inspect
+import shlex
 import subprocess
 import tempfile
 from functools import reduce
@@ -330,7 +331,7 @@ class Canvas:
             os.close(fd)
             self.save(pspath, *args, **kwargs)
             cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-            cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+            cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(path), shlex.quote(pspath))
             ret = subprocess.call(cmd, shell=True)
         finally:
             os.remove(pspath)
@@ -339,7 +340,7 @@ class Canvas:
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(output), shlex.quote(pspath))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -357,7 +358,7 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
             paths.append(path)
-        paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        paths = " ".join(map(shlex.quote, paths))
+        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From 5dd1873d05df4e60cd958c09e5b891cb3774b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:03 +0000
Subject: [PATCH 43/64] fix: an animation with a frame that failed to render is
 not a success

---
 coral/vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 4a9c723..84c59d0 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -356,7 +356,9 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
         for i, canvas in tqdm.tqdm(enumerate(frames), total=n, desc="anim"):
             canvas.bbox = bb
             path = fmt.format(i)
-            canvas.export(path, *args, **kwargs)
+            status = canvas.export(path, *args, **kwargs)
+            if status:
+                return status
             paths.append(path)
         paths = " ".join(map(shlex.quote, paths))
         cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
-- 
2.43.0


From 374eefbe681a4efecd23390ae8eebd81c6fd50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 44/64] fix: progress bars work without a total

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From f2980719c31cca321c34252a089a7bf9b57c4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:53 +0000
Subject: [PATCH 45/64] fix: a progress bar only writes to its own file

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From 5133d1b6a692189d4574f1d75e4f027fce8fdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 46/64] fix: reading a table file without column names ends

---
 coral/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..e3d3ef7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -83,7 +83,10 @@ def readfile(path, keys=None, sep=',', comm='#'):
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("no column names in {}".format(path))
+            line = line.split(comm)[0].strip()
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-- 
2.43.0


From 822e29a7ca63006a48981907818c6234999ec6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:20 +0000
Subject: [PATCH 47/64] fix: columns selected in another order than in the file
 keep their own values

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index e3d3ef7..a07c2b9 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -90,7 +90,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 7d064c466951ad73ab23a67b34a6a5bebf81ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:21 +0000
Subject: [PATCH 48/64] fix: empty values at the ends of blank-separated rows
 are kept

---
 coral/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index a07c2b9..30ba7e1 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -93,10 +93,13 @@ def readfile(path, keys=None, sep=',', comm='#'):
         indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
-            line = line.split(comm)[0].strip()
-            if not line:
+            line = line.split(comm)[0]
+            if not line.strip():
                 continue
+            # A blank separator at either end belongs to an empty value.
             fvalues = line.split(sep)
+            fvalues[0] = fvalues[0].lstrip()
+            fvalues[-1] = fvalues[-1].rstrip()
             values = [fvalues[i] for i in indexes]
             table.append(Row(*values))
     return table
-- 
2.43.0


From 55b03ca3e798c19792bec85b761d9ed448238aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 49/64] fix: frames on the ellipsoid can be loaded

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 62fee263ad3ca898a7e35176a2affe388fcbc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:02 +0000
Subject: [PATCH 50/64] fix: names ending in blanks are kept in the name cache

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..b3429e2 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -111,7 +111,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From a796f6b48f87ee30fda79298d4a309439f582641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:03 +0000
Subject: [PATCH 51/64] fix: the azimuthal equidistant projection accepts its
 center up to rounding

---
 coral/proj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..61fb06e 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -315,6 +315,9 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        if cosc >= 1:
+            # The center, up to rounding.
+            return 0, 0
         c = math.acos(cosc)
         k = c / math.sin(c)
         x = y = self.r * k
-- 
2.43.0


From 455f027ff46d53e1ddad44ba07f4e8cdda7b8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 52/64] fix: all pixels of a black and white canvas start in
 the background color

---
 coral/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..c3b8a7b 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,8 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        byte = 0xff if bgcolor else 0
+        self.data = array('B', (byte for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From 0da5be0b3380b0adf131754d88dbcf33a0c9cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:26 +0000
Subject: [PATCH 53/64] fix: polygons reaching the right border are filled up
 to it

---
 coral/raster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/raster.py b/coral/raster.py
index c3b8a7b..11dbea8 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -76,6 +76,11 @@ class BaseCanvas:
                     x0 = x1
                 d0 = d1
                 x1, d1 = heapq.heappop(marks)
+            if marks and not d0:
+                # the polygon reaches the right border.
+                while x0 < self.width:
+                    self[x0, y] = color
+                    x0 += 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From cb85dfafa8d875f517a736f803f70571f4301688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:22 +0000
Subject: [PATCH 54/64] fix: clearing the statistics cache also forgets maxima
 and minima

---
 coral/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/stats.py b/coral/stats.py
index 4145aa7..6887a70 100644
--- a/coral/stats.py
+++ b/coral/stats.py
@@ -89,7 +89,7 @@ def gini_deaton(seq):
     g = (n + 1) / (n - 1) - 2 * s / (n * (n - 1) * u)
     return g
 
-memos = [sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
+memos = [max, min, sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
 
 CacheInfo = collections.namedtuple("CacheInfo", "hits, misses, maxsize, currsize")
 
-- 
2.43.0


From 2d5e53fc2dfa45b1795d3719ed05cb8288fc7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:21 +0000
Subject: [PATCH 55/64] fix: simplify lines of less than two points

---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..1395742 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -248,9 +248,13 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From 32178f54b227b72a6f0768b52778799975b5c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 56/64] fix: keep the corner at the base of a slit

---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 1395742..5c5b150 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -251,6 +251,7 @@ def open_no_slit(s, k):
     p = next(s, None)
     if p is None:
         return
+    o = p
     yield p
     q = next(s, None)
     if q is None:
@@ -260,10 +261,13 @@ def open_no_slit(s, k):
             continue
         if not collinear(p, q, r):
             if not b.isempty() and q == b.peek():
+                # Back at the base of a slit, the line goes on from there.
                 b.pop()
-            else:
+                p = o if b.isempty() else b.peek()
+            if not collinear(p, q, r):
                 if b.isfull():
-                    yield b.shift()
+                    o = b.shift()
+                    yield o
                 b.push(q)
         p, q = q, r
     while not b.isempty():
-- 
2.43.0


From ea4aed34221da99696e17ea6b596a5117c185853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 57/64] fix: merge a box with no other box yet

---
 coral/bbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 39c6fac..792e0b2 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -69,7 +69,7 @@ class BBox:
         # Boxes without area, like those of straight lines, are not empty.
         empty = BBox()
         if self == empty: return other
-        if other == empty: return self
+        if other is None or other == empty: return self
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From 058800b8fe817dbd1df78566eb3c5741bbfa0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 58/64] fix: fill polygons that meet or overlap in a scan line

---
 coral/raster.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 11dbea8..57917ff 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -64,23 +64,16 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
+            # polygons may meet or overlap: count those around each pixel.
+            x0, inside = 0, 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if inside > 0:
+                    while x0 < min(x1, self.width):
                         self[x0, y] = color
                         x0 += 1
-                else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
-            if marks and not d0:
-                # the polygon reaches the right border.
-                while x0 < self.width:
-                    self[x0, y] = color
-                    x0 += 1
+                x0 = max(x0, x1)
+                inside += -1 if down else 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From 669393e4936ae44c2deddd8999c47d0e22147e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 59/64] fix: anti-aliased lines up to the canvas border, of no
 length, and in gray

---
 coral/raster.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 57917ff..6fb0b1c 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -108,14 +108,21 @@ class BaseCanvas:
         rfpart  = lambda x: 1 - math.modf(x)[0]
         x0, y0 = start
         x1, y1 = end
+        if not isinstance(color, tuple):
+            color = (color,)
         steep = abs(y1 - y0) > abs(x1 - x0)
+        def plot(x, y, alpha):
+            # Do not touch pixels outside the canvas that would not change.
+            if alpha > 0:
+                if steep: x, y = y, x
+                self[x, y] = color + (alpha,)
         if steep:
             (x0, y0), (x1, y1) = (y0, x0), (y1, x1)
         if x0 > x1:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
-        gradient = dy / dx
+        gradient = dy / dx if dx else 0
 
         # Line start.
         xend = nearest(x0)
@@ -125,12 +132,8 @@ class BaseCanvas:
         ypxl1 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
-        if steep:
-            self[ypxl1  , xpxl1] = color + (alpha1,)
-            self[ypxl1+1, xpxl1] = color + (alpha2,)
-        else:
-            self[xpxl1, ypxl1  ] = color + (alpha1,)
-            self[xpxl1, ypxl1+1] = color + (alpha2,)
+        plot(xpxl1, ypxl1  , alpha1)
+        plot(xpxl1, ypxl1+1, alpha2)
         intery = yend + gradient
 
         # Line end.
@@ -141,23 +144,15 @@ class BaseCanvas:
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
-        if steep:
-            self[ypxl2  , xpxl2] = color + (alpha1,)
-            self[ypxl2+1, xpxl2] = color + (alpha2,)
-        else:
-            self[xpxl2, ypxl2  ] = color + (alpha1,)
-            self[xpxl2, ypxl2+1] = color + (alpha2,)
+        plot(xpxl2, ypxl2  , alpha1)
+        plot(xpxl2, ypxl2+1, alpha2)
 
         # Internal points.
         for x in range(xpxl1+1, xpxl2):
             alpha1 = rfpart(intery)
             alpha2 =  fpart(intery)
-            if steep:
-                self[ipart(intery)  , x] = color + (alpha1,)
-                self[ipart(intery)+1, x] = color + (alpha2,)
-            else:
-                self[x, ipart(intery)  ] = color + (alpha1,)
-                self[x, ipart(intery)+1] = color + (alpha2,)
+            plot(x, ipart(intery)  , alpha1)
+            plot(x, ipart(intery)+1, alpha2)
             intery += gradient
 
     def strokepolygon(self, points, color, aa=None):
-- 
2.43.0


From fb4080d325245915c38e59d1a72b6f2a585f4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:11 +0000
Subject: [PATCH 60/64] fix: simplify closed rings without scrambling or losing
 vertices

---
 coral/coord.py | 72 ++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 5c5b150..0212d68 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -275,38 +275,46 @@ def open_no_slit(s, k):
     yield q
 
 def closed_no_slit(s, k):
-    b1 = Buffer(k)
-    b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
-    for r in s:
-        if r == q:
-            continue
-        if not collinear(p, q, r):
-            if not b1.isempty() and q == b1.peek():
-                b1.pop()
-            else:
-                if b1.isfull():
-                    t = b1.shift()
-                    if b2.isfull():
-                        yield t
-                    else:
-                        b2.push(t)
-                b1.push(q)
-        p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
-        p = b1.pop()
-        q = b2.shift()
-        if p != q:
-            break
-    while not b1.isempty():
-        yield b1.shift()
-    yield p
-    yield q
-    while not b2.isempty():
-        yield b2.shift()
-    yield r
+    first = last = next(s, None)
+    if first is None:
+        return
+    def around():
+        nonlocal last
+        yield first
+        for last in s:
+            yield last
+        # A ring ends where it starts.
+        yield first
+    line = open_no_slit(around(), k)
+    # The start may turn out to be on a side or on a slit: hold back what is
+    # next to it.
+    head = list(itertools.islice(line, k + 1))
+    tail = list(itertools.islice(line, k + 1))
+    start = end = None
+    for p in line:
+        end = tail.pop(0)
+        if start is None:
+            start = end
+        yield end
+        tail.append(p)
+    ring = (tail or head[:1]) + head[1:]
+    fixed = 0
+    if start is not None:
+        ring = [end] + ring + [start]
+        fixed = 1
+    i = fixed
+    while fixed <= i < len(ring) - fixed and len(ring) > 1:
+        if collinear(ring[i - 1], ring[i], ring[(i + 1) % len(ring)]):
+            del ring[i]
+            i = fixed
+        else:
+            i += 1
+    ring = ring[fixed:len(ring) - fixed]
+    yield from ring
+    if start is None:
+        start = end = ring[0]
+    if first == last and (len(ring) > 1 or start != end):
+        yield start
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From 568cfe7cbe5b984ec41ac3d791e361a0c44f206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 61/64] fix: join tables with their columns in order

---
 coral/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 30ba7e1..f4ec58b 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -25,9 +25,9 @@ def join(t1, t2, pivots=None, keys=None):
     keys1 = t1[0]._fields
     keys2 = t2[0]._fields
     if pivots is None:
-        pivots = list(set(keys1) & set(keys2))
+        pivots = [key for key in keys1 if key in keys2]
     if keys is None:
-        keys = list(set(keys1) | set(keys2))
+        keys = list(keys1) + [key for key in keys2 if key not in keys1]
     Row = collections.namedtuple("Row", keys)
     table = []
     for r1 in t1:
-- 
2.43.0


From 9d5833b779fd6bab4bd95b2482895d3f3bd25269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 62/64] fix: keep dbf fields whose name begins with Deletion

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 1127ef5..7bbf59f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -807,7 +807,7 @@ class Writer:
         year -= 1900
         # Remove deletion flag placeholder from fields
         for field in self.fields:
-            if field[0].startswith("Deletion"):
+            if field[0] == "DeletionFlag":
                 self.fields.remove(field)
         numRecs = len(self.records)
         numFields = len(self.fields)
@@ -957,7 +957,7 @@ class Writer:
         for record in self.records:
             # Fields may have been added after the record
             record = list(record) + [""] * (len(self.fields) - len(record))
-            if not self.fields[0][0].startswith("Deletion"):
+            if self.fields[0][0] != "DeletionFlag":
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
@@ -1036,7 +1036,7 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
             [record.append(recordList[i]) for i in range(fieldCount)]
         elif recordDict:
@@ -1047,7 +1047,7 @@ class Writer:
                         record.append("")
                     else:
                         record.append(val)
-                elif not field[0].startswith("Deletion"):
+                elif field[0] != "DeletionFlag":
                     record.append("")
         if record:
             self.records.append(record)
-- 
2.43.0


From 2b6e54074d725c4e7334ac48aabbda201a4e7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:47 +0000
Subject: [PATCH 63/64] fix: read RangeGrid columns whose names are no
 identifiers

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index b8b890d..9412f89 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -267,7 +267,7 @@ class Reader:
             else:
                 raise TypeError
         self.row = GRow(*fields)
-        self.nt = collections.namedtuple("Row", (field.name for field in fields))
+        self.nt = collections.namedtuple("Row", (field.name for field in fields), rename=True)
         self.datapos = rg.tell()
         # Position of each entity, so that no read depends on previous ones.
         self.offsets = []
-- 
2.43.0


From c38ce0b0cdd4200ffbfd05e7188993c3a8779058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:01 +0000
Subject: [PATCH 64/64] fix: refuse RangeGrid rows with more values than
 columns

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 9fb7649..122238e 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -161,6 +161,7 @@ class GRow:
         return len(self.fields)
 
     def encode(self, *values):
+        assert len(values) == len(self.fields)
         data = b''.join(f.encode(v) for (f, v) in zip(self.fields, values))
         assert len(data) == self.size
         return data
-- 
2.43.0

