From c8709b7bff3da77952338f54c83a463ccd319cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 01/30] fix: never read outside the payload after seeking past
 its end

---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..da5537a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -292,8 +292,8 @@ class EventIOObject:
             If size == -1 (default), read all remaining bytes.
         '''
         # read all remaining bytes.
-        remaining = self.size - self._pos
-        if size == -1 or size > remaining:
+        remaining = max(self.size - self._pos, 0)
+        if size < 0 or size > remaining:
             size = remaining
 
         data = self._filehandle.read(size)
-- 
2.43.0


From 15d11f6475b8d6705daad7793524f821154f6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 02/30] fix: raise EOFError if the file ends inside the payload
 of an object

---
 src/eventio/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index da5537a..dfbb714 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -298,6 +298,8 @@ class EventIOObject:
 
         data = self._filehandle.read(size)
         self._pos += len(data)
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
 
         return data
 
-- 
2.43.0


From 9bbfffaa8928b3c1fe6d4a3544a5255b6527153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 03/30] fix: missing extension field of a header is a truncated
 file, not the end of it

---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index dfbb714..45d6d5b 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -226,7 +226,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From 99d9182541ac79ebc57f3eb1be95ca9a943616ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 04/30] fix: read n_fparam float parameters in MCExtraParams

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..30b29c8 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1463,7 +1463,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From 1b739f79900a34a2fd43a338aff427248b323982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 05/30] fix: read data of integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 86fb4bf1870acdc608ed9f12893a417dab965b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 06/30] fix: name of curved_surface in old CameraSettings

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 30b29c8..603f37a 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -250,7 +250,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From b81fa387bea108addc08fca1f43d8ea8fc807e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 07/30] fix: read extra parameters of MCShower version 2 from
 the payload

---
 src/eventio/simtel/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 603f37a..d6fefff 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1442,9 +1442,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
-- 
2.43.0


From 0cc7984e9c14d6d0ce91913deac02ffc747b2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 08/30] fix: unpack n_phys_addr in TelescopeEventHeader version
 0 and 1

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index d6fefff..a87ffe7 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -814,7 +814,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From a59078b7eee318b8ea3c73c0740ec56032b4c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 09/30] fix: TriggerInformation version 0 and 1 has no trigger
 type mask

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index a87ffe7..d3176ce 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -647,7 +647,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 14d2026a11fdb378e65a358383e5005ac8256a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 10/30] fix: rewind before parsing history, trace, trigger time
 and pixel monitoring blocks

---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index d3176ce..c3fcd39 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 0ecb56ac6eff38e05d7e5f37f344837c85729389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 11/30] fix: histogram titles are padded according to their
 length in bytes

---
 src/eventio/histograms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..4dd6989 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,9 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From e7df87ba2f8fdef934d91f5a02bafd439e626e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 12/30] fix: raise EOFError if a string is cut short

---
 src/eventio/tools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..e4effeb 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -41,13 +41,21 @@ def read_array(f, dtype, count):
     return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)
 
 
+def _read_exactly(f, size):
+    '''Read `size` bytes from `f`, raises EOFError if there are fewer'''
+    data = f.read(size)
+    if len(data) < size:
+        raise EOFError('File seems to be truncated')
+    return data
+
+
 def read_string(f):
     '''Read a string from eventio file or object f.
     Eventio stores strings as a short giving the length
     of the string and the string itself.
     '''
     length = read_short(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_var_string(f):
@@ -56,7 +64,7 @@ def read_var_string(f):
     the variable length integer instead of a short.
     '''
     length = read_unsigned_varint(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_from(f, fmt):
-- 
2.43.0


From 947a12c6a251f628bf9c608974d791261b61b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 13/30] fix: compact photon blocks without bunches have the
 same columns as others

---
 src/eventio/iact/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..5f9e78e 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -288,7 +288,7 @@ class Photons(EventIOObject):
             dtype = self.long_dtype
 
         if self.n_bunches == 0:
-            return np.array([], dtype=dtype)
+            return np.array([], dtype=self.long_dtype)
 
         count = self.n_bunches if chunksize is None else chunksize
 
-- 
2.43.0


From c1d88f8f87b9e9a41466ca122975e1dff7bfcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 14/30] fix: decode 9 byte signed varints in arrays above 2^63

---
 src/eventio/var_int.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..88bda24 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -156,7 +156,7 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
     cdef uint8_t one = 1;
@@ -169,7 +169,7 @@ cpdef varint_array(
         pos += length
 
         if (val & one):
-            output[i] = -(val >> one) - one
+            output[i] = -<int64_t>(val >> one) - one
         else:
             output[i] = val >> one
 
-- 
2.43.0


From 78fc6889db45b4def17de40ae32c3eac694719a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 15/30] fix: raise EOFError for varints cut short instead of
 decoding the rest

---
 src/eventio/var_int.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 88bda24..8a5ee11 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -50,9 +50,17 @@ cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
 @cython.boundscheck(False)
 @cython.wraparound(False)  # disable negative indexing
 cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
-    cdef uint8_t length = var_int_bytes.shape[0]
+    cdef uint8_t length
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
+
+    if var_int_bytes.shape[0] == 0:
+        raise EOFError('Data seems to be truncated')
+
+    length = get_length_of_varint(var_int_bytes[0])
+    if var_int_bytes.shape[0] < length:
+        raise EOFError('Data seems to be truncated')
+
     for i in range(length):
         v[i] = var_int_bytes[i]
 
-- 
2.43.0


From 5a8b2063fd579245af5f9cdd2674231018737796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 16/30] fix: compiled parsers in var_int do not read beyond the
 end of the data

---
 src/eventio/var_int.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 8a5ee11..a152125 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -8,6 +8,13 @@ from libc.math cimport NAN
 cnp.import_array()
 
 
+cdef int check_available(const uint8_t[:] data, uint64_t pos, uint64_t size) except -1:
+    '''raise an EOFError if there are less than `size` bytes at `pos` in `data`'''
+    if pos + size > <uint64_t> data.shape[0]:
+        raise EOFError('Data seems to be truncated')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef (uint64_t, uint8_t) unsigned_varint(const uint8_t[:] data, uint64_t offset=0):
     cdef uint8_t length
@@ -339,6 +346,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data, pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -400,17 +408,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data, pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data, pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data, pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -418,6 +429,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data, pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -433,10 +445,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data, pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data, pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -477,6 +491,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From 69949727326684044e1cddbabedc3c616d023a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 17/30] fix: compiled parsers in simtel.parsing do not read
 beyond the end of the data

---
 src/eventio/simtel/parsing.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..2ed468e 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,14 @@ cimport numpy as np
 
 INT16 = np.int16
 
+
+cdef int check_available(const uint8_t[:] data, uint64_t pos, uint64_t size) except -1:
+    '''raise an EOFError if there are less than `size` bytes at `pos` in `data`'''
+    if pos + size > <uint64_t> data.shape[0]:
+        raise EOFError('Data seems to be truncated')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +31,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data, pos, 2)
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +74,8 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data, pos, 16 if version >= 2 else 12)
+
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
-- 
2.43.0


From 3712a07087686a133663fe36ad01b3f506ca2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 18/30] fix: raise WrongType, not AttributeError, for an object
 of the wrong type

---
 src/eventio/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 45d6d5b..84e51d3 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -271,11 +271,12 @@ class EventIOObject:
     eventio_type = None
 
     def __init__(self, header, filehandle):
+        self.header = header
+
         if self.eventio_type is not None and header.type != self.eventio_type:
-            raise WrongType(self.eventio_type, header.type)
+            raise WrongType(self.__class__, self)
 
         self._filehandle = filehandle
-        self.header = header
         self.address = self.header.content_address
         self.size = self.header.content_size
         self.only_subobjects = self.header.only_subobjects
-- 
2.43.0


From 2ec34cb4bd32a6574d8827fe5bbd15d0020c0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 19/30] fix: iterating an IACTFile again starts at the first
 event even after peek

---
 src/eventio/iact/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..3005d61 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -139,6 +139,8 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        self.next = None
+        self.peek_error = None
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 49af0953dea929cd55f9b7153fb45ee6ed3901d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 20/30] fix: ignore unexpected sub-objects of
 CalibrationPhotoelectrons as announced

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..8e56376 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -362,6 +362,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From b46da58629e841ace5b2e040e5517aa986e1b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 21/30] fix: observation level particles do not leak into the
 next shower

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 8e56376..7652ce2 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # the particles belong to the previous shower
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From 6344dde4027cb8ba81f1de8db18655927ec683c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 22/30] fix: allowed_telescopes keeps tracking positions and
 reconstruction of events without allowed telescope events

---
 src/eventio/simtel/simtelfile.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 7652ce2..0d51cb4 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -481,10 +481,6 @@ def parse_array_event(array_event, allowed_telescopes=None):
                 event["event_id"] = o.header.id
             trigger_information = o.parse()
             event["trigger_information"] = trigger_information
-            telescopes = set(trigger_information['telescopes_with_data'])
-
-            if allowed_telescopes and len(telescopes & allowed_telescopes) == 0:
-                break
 
         elif isinstance(o, TelescopeEvent):
             if allowed_telescopes is None or o.telescope_id in allowed_telescopes:
-- 
2.43.0


From 3eb73ffb2096678ebdb0c91e55ec33be29b6beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 23/30] fix: yield_n_subobjects yields nothing for n=0

---
 src/eventio/search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..216f9ee 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -81,6 +81,9 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
+    if n < 1:
+        return
+
     for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
         if i >= n:
             yield obj
-- 
2.43.0


From 27a76aa0d72f918ac7faafedf132b888098e59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 24/30] fix: cut_eventio_file: an object ending exactly at
 max_size fits, none may fit

---
 src/eventio/scripts/cut_eventio_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cf3d72b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
@@ -55,14 +55,15 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is not None:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From 03a073650e61565905fb3c7730c50fcb3895d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 25/30] fix: cut_eventio_file: a truncated object is not
 complete, sizes above 2^53 are exact

---
 src/eventio/scripts/cut_eventio_file.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cf3d72b..ab4df05 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -31,7 +31,7 @@ def parse_size(size):
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
     size, unit = m.groups()
-    size = float(size)
+    size = int(size)
 
     if unit is None:
         return int(size)
@@ -53,13 +53,21 @@ def main():
     bytes_to_read = 0
     with EventIOFile(args.inputfile) as f:
         last_o = None
-        for o in f:
-            last_byte = o.header.content_address + o.header.content_size
-            if last_byte <= max_size:
+        try:
+            for o in f:
+                last_byte = o.header.content_address + o.header.content_size
+                if last_byte > max_size:
+                    break
+
+                # raises EOFError if the object is incomplete
+                if o.size > 0:
+                    o.seek(o.size - 1)
+                    o.read(1)
+
                 bytes_to_read = last_byte
                 last_o = o
-            else:
-                break
+        except EOFError:
+            pass
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
     if last_o is not None:
-- 
2.43.0


From 63b725a2931b9a053968c9865d0b633a8bfe1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 26/30] fix: refuse relative seeks to before the start of the
 payload

---
 src/eventio/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 84e51d3..2c54252 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -338,6 +338,7 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
+            assert self._pos + offset >= 0
             new_pos = self._filehandle.seek(offset, whence)
         elif whence == 2:
             if offset > self.size:
-- 
2.43.0


From 24d456fe0fd525641aef7224f5fa70a0b781ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 27/30] fix: IACTFile: a shower without telescope data does not
 take the data of the next one

---
 src/eventio/iact/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 3005d61..d3d1510 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import check_type, WrongType
 
 from .objects import (
     RunHeader,
@@ -168,6 +168,9 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
+                if isinstance(obj, (EventHeader, ArrayOffsets, EventEnd, RunEnd)):
+                    raise WrongType((TelescopeData, TelescopeArrayHead), obj)
+
                 obj = next(self)
 
             split_always = isinstance(obj, TelescopeArrayHead)
-- 
2.43.0


From 2987f2de6be362f47b13c6115ea8f0e1398b7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 28/30] fix: IACTFile: every reuse of a split file starts with
 its head

---
 src/eventio/iact/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index d3d1510..552bfbc 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -185,6 +185,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = next(self)
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From d2ce428f550b89cd7071b15ba9e2834b57ce7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 29/30] fix: SimTelFile: a truncated calibration event does not
 replace the complete one before it

---
 src/eventio/simtel/simtelfile.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 0d51cb4..5dbaaa8 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,16 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            # parse first: if the file ends here, the current event is kept
+            array_event_data = parse_array_event(o, self.allowed_telescopes)
+
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
             self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -332,6 +333,8 @@ class SimTelFile:
 
         elif isinstance(o, CalibrationEvent):
             array_event = next(o)
+            # parse first: if the file ends here, the current event is kept
+            array_event_data = parse_array_event(array_event, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
@@ -340,9 +343,7 @@ class SimTelFile:
                 "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From e88b2c6e000c83e7c45fbad0c5048748eb6ea970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 30/30] fix: EventEnd: a block without its data is an error,
 not an empty result

---
 src/eventio/iact/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 5f9e78e..15f4ecc 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -402,7 +402,11 @@ class EventEnd(EventIOObject):
         if n != 273:
             raise WrongSize('Expected 3 floats, but found {}'.format(n))
 
-        return parse_event_end(self.read(), version=corsika_version)
+        data = self.read()
+        if len(data) < n * 4:
+            raise EOFError('Event end block is truncated')
+
+        return parse_event_end(data, version=corsika_version)
 
     def __str__(self):
         return super().__str__() + '(event_id={})'.format(self.header.id)
-- 
2.43.0

