From 7434baaa5c959895abef152da9c42d7e9e935879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 01/26] fix: account for header bytes of earlier chunks in
 uncompressed patches

An uncompressed sequential patch whose header is split over several
detools_apply_patch_process() calls was rejected as corrupt, as only the
header bytes in the current chunk were subtracted from the patch size.
---
 c/detools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index 5d25489..b4295c7 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1127,7 +1127,9 @@ static int process_init_to_size(struct detools_apply_patch_t *self_p)
 
     res = patch_reader_init(&self_p->patch_reader,
                             &self_p->chunk,
-                            self_p->patch_size - self_p->chunk.offset,
+                            (self_p->patch_size
+                             - (self_p->patch_offset
+                                - chunk_left(&self_p->chunk))),
                             self_p->compression);
 
     if (res != 0) {
-- 
2.43.0


From 178919429891182f450e761c4d57461c19ca62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 02/26] fix: account for header bytes of earlier chunks in
 uncompressed in-place patches

Same as for sequential patches: the header of an uncompressed in-place
patch may be split over several process calls.
---
 c/detools.c | 6 +++++-
 c/detools.h | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index b4295c7..32b2cba 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1838,7 +1838,9 @@ static int in_place_process_init_to_size(
 
     res = patch_reader_init(&self_p->patch_reader,
                             &self_p->chunk,
-                            self_p->patch_size - self_p->chunk.offset,
+                            (self_p->patch_size
+                             - (self_p->patch_offset
+                                - chunk_left(&self_p->chunk))),
                             self_p->compression);
 
     if (res != 0) {
@@ -2133,6 +2135,7 @@ int detools_apply_patch_in_place_init(
     self_p->step_set = step_set;
     self_p->step_get = step_get;
     self_p->patch_size = patch_size;
+    self_p->patch_offset = 0;
     self_p->arg_p = arg_p;
     self_p->state = detools_apply_patch_state_init_t;
     self_p->ongoing_step = 1;
@@ -2150,6 +2153,7 @@ int detools_apply_patch_in_place_process(
     int res;
 
     res = 0;
+    self_p->patch_offset += size;
     self_p->chunk.buf_p = patch_p;
     self_p->chunk.size = size;
     self_p->chunk.offset = 0;
diff --git a/c/detools.h b/c/detools.h
index 1cc9c6f..dd89f10 100644
--- a/c/detools.h
+++ b/c/detools.h
@@ -375,6 +375,7 @@ struct detools_apply_patch_in_place_t {
     enum detools_apply_patch_in_place_init_state_t init_state;
     int compression;
     int ongoing_step;
+    size_t patch_offset;
     size_t to_pos;
     size_t to_size;
     size_t from_size;
-- 
2.43.0


From 1921d3da47234b7f4b492a47300e290958e0d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 03/26] fix: skip empty CRLE segments

A zero length scattered or repeated segment made the CRLE reader report
success without any decompressed data, and an uninitialized byte was used.
---
 c/detools.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/detools.c b/c/detools.c
index 32b2cba..8199b44 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -695,6 +695,12 @@ static int patch_reader_crle_decompress_scattered_data(
 {
     int res;
 
+    if (crle_p->kind.scattered.number_of_bytes_left == 0) {
+        crle_p->state = detools_crle_state_idle_t;
+
+        return (2);
+    }
+
     *size_p = MIN(*size_p, crle_p->kind.scattered.number_of_bytes_left);
     res = chunk_read(self_p->patch_chunk_p, buf_p, size_p);
 
@@ -758,6 +764,12 @@ static int patch_reader_crle_decompress_repeated_data_read(
     size_t size;
     size_t i;
 
+    if (crle_p->kind.repeated.number_of_bytes_left == 0) {
+        crle_p->state = detools_crle_state_idle_t;
+
+        return (2);
+    }
+
     size = MIN(*size_p, crle_p->kind.repeated.number_of_bytes_left);
 
     for (i = 0; i < size; i++) {
-- 
2.43.0


From 4dd883c72b82be7d46938045de4b9369afb5ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 04/26] fix: reject negative diff and extra sizes

A negative size made the sum of size and position wrap around, so that
more than the to-size was written.
---
 c/detools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index 8199b44..0137243 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1093,7 +1093,7 @@ static int common_process_size(
         return (res);
     }
 
-    if (to_pos + (size_t)*size_p > to_size) {
+    if ((*size_p < 0) || (to_pos + (size_t)*size_p > to_size)) {
         return (-DETOOLS_CORRUPT_PATCH);
     }
 
-- 
2.43.0


From 137b105dd2753be054b76e51ffaab1492b27deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 05/26] fix: reject in-place patches with bad segment or shift
 size

A zero segment size divided by zero, and a shift size larger than the
memory size wrapped around to a huge number of segments to move.
---
 c/detools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/detools.c b/c/detools.c
index 0137243..c786825 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1868,6 +1868,11 @@ static int in_place_process_init_to_size(
     self_p->segment.index = 0;
 
     if (to_size > 0) {
+        if ((self_p->segment_size == 0)
+            || (self_p->shift_size > self_p->memory_size)) {
+            return (-DETOOLS_CORRUPT_PATCH);
+        }
+
         res = in_place_shift_memory(self_p,
                                     self_p->memory_size,
                                     self_p->from_size);
-- 
2.43.0


From 9466963f15d6889e60881a0b38747760a897aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 06/26] fix: reject in-place patches accessing memory outside
 the memory size

Neither the to-size nor the last shifted segment was checked to be within
the memory size of the patch.
---
 c/detools.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index c786825..34ad375 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1685,6 +1685,12 @@ static int in_place_shift_memory(struct detools_apply_patch_in_place_t *self_p,
 
     number_of_segments = DIV_CEIL(MIN(from_size, memory_size - self_p->shift_size),
                                   self_p->segment_size);
+
+    if (number_of_segments * self_p->segment_size
+        > memory_size - self_p->shift_size) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     read_address = ((number_of_segments - 1) * self_p->segment_size);
     write_address = (read_address + self_p->shift_size);
 
@@ -1869,7 +1875,8 @@ static int in_place_process_init_to_size(
 
     if (to_size > 0) {
         if ((self_p->segment_size == 0)
-            || (self_p->shift_size > self_p->memory_size)) {
+            || (self_p->shift_size > self_p->memory_size)
+            || (self_p->to_size > self_p->memory_size)) {
             return (-DETOOLS_CORRUPT_PATCH);
         }
 
-- 
2.43.0


From 1205ed351db6cfce8a6aef322e007a744469d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 07/26] fix: do not write outside the erased segment in
 in-place patching

The diff and extra sizes were checked against the whole to-size, so a
corrupt patch could write to memory after the segment, which had not been
erased yet and may hold from-data.
---
 c/detools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 34ad375..d543ae0 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1972,8 +1972,8 @@ static int in_place_process_size(struct detools_apply_patch_in_place_t *self_p,
     int size;
 
     res = common_process_size(&self_p->patch_reader,
-                              self_p->to_pos,
-                              self_p->to_size,
+                              self_p->segment.to_pos,
+                              self_p->segment.to_size,
                               &size);
 
     if (res != 0) {
-- 
2.43.0


From 8d1f90ad4e3e595fdbd04d2f126f4b1c050785b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 08/26] fix: report failure to close files after a successful
 patch

Data may be lost when closing the destination file fails, but the result
of closing the files was ignored for all patches with a nonzero to-size.
---
 c/detools.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index d543ae0..8af0327 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -2540,11 +2540,15 @@ int detools_apply_patch_filenames(const char *from_p,
                                         file_io_to_write,
                                         &file_io);
 
-    if (res != 0) {
+    if (res < 0) {
         goto err1;
     }
 
-    return (file_io_cleanup(&file_io));
+    if (file_io_cleanup(&file_io) != 0) {
+        return (-DETOOLS_FILE_CLOSE_FAILED);
+    }
+
+    return (res);
 
  err1:
     (void)file_io_cleanup(&file_io);
@@ -2704,11 +2708,15 @@ int detools_apply_patch_in_place_filenames(const char *memory_p,
                                                  patch_size,
                                                  &file_io);
 
-    if (res != 0) {
+    if (res < 0) {
         goto err1;
     }
 
-    return (in_place_file_io_cleanup(&file_io));
+    if (in_place_file_io_cleanup(&file_io) != 0) {
+        return (-DETOOLS_FILE_CLOSE_FAILED);
+    }
+
+    return (res);
 
  err1:
     (void)in_place_file_io_cleanup(&file_io);
-- 
2.43.0


From 38945ca0e3b39cbcdbc939a2e7c0671705f3eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 09/26] fix: report failing memory callbacks as failures in
 in-place patching

The value returned by a failing memory callback was used as is, so that
-11 was taken for already done and one(1) for more patch data needed.
---
 c/detools.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 8af0327..87c58c7 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1621,12 +1621,14 @@ static int in_place_mem_read(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_read(self_p->arg_p, dst_p, src, size));
+        if (self_p->mem_read(self_p->arg_p, dst_p, src, size) != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     } else {
         memset(dst_p, 0, size);
-
-        return (0);
     }
+
+    return (0);
 }
 
 static int in_place_mem_write(struct detools_apply_patch_in_place_t *self_p,
@@ -1644,10 +1646,12 @@ static int in_place_mem_write(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_write(self_p->arg_p, dst, src_p, size));
-    } else {
-        return (0);
+        if (self_p->mem_write(self_p->arg_p, dst, src_p, size) != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     }
+
+    return (0);
 }
 
 static int in_place_mem_erase(struct detools_apply_patch_in_place_t *self_p,
@@ -1664,10 +1668,12 @@ static int in_place_mem_erase(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_erase(self_p->arg_p, addr, size));
-    } else {
-        return (0);
+        if (self_p->mem_erase(self_p->arg_p, addr, size) != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     }
+
+    return (0);
 }
 
 static int in_place_shift_memory(struct detools_apply_patch_in_place_t *self_p,
-- 
2.43.0


From 4e4f45ada219677aeb9b1decc8ee7316a18d1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 10/26] fix: do not negate INT_MIN in detools_error_as_string()

---
 c/detools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index 87c58c7..8a30e5e 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -30,6 +30,7 @@
  * OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <limits.h>
 #include <stdlib.h>
 #include "detools.h"
 
@@ -2734,7 +2735,7 @@ int detools_apply_patch_in_place_filenames(const char *memory_p,
 
 const char *detools_error_as_string(int error)
 {
-    if (error < 0) {
+    if ((error < 0) && (error != INT_MIN)) {
         error *= -1;
     }
 
-- 
2.43.0


From 3b5f1fb0578ded6fbaf8af31fdee3e802a58a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 11/26] fix: reject patches moving the from-offset out of range

Many large adjustments made the signed from-offset overflow.
---
 c/detools.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 8a30e5e..a0e4742 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1101,6 +1101,18 @@ static int common_process_size(
     return (res);
 }
 
+static int common_add_offset(int *offset_p, int value)
+{
+    if (((value > 0) && (*offset_p > INT_MAX - value))
+        || ((value < 0) && (*offset_p < INT_MIN - value))) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
+    *offset_p += value;
+
+    return (0);
+}
+
 /*
  * Low level sequential patch type functionality.
  */
@@ -1259,7 +1271,11 @@ static int process_data(struct detools_apply_patch_t *self_p,
             return (-DETOOLS_IO_FAILED);
         }
 
-        self_p->from_offset += to_size;
+        res = common_add_offset(&self_p->from_offset, (int)to_size);
+
+        if (res != 0) {
+            return (res);
+        }
 
         for (i = 0; i < to_size; i++) {
             to[i] = (uint8_t)(to[i] + from[i]);
@@ -1309,14 +1325,18 @@ static int process_adjustment(struct detools_apply_patch_t *self_p)
         return (res);
     }
 
+    res = common_add_offset(&self_p->from_offset, offset);
+
+    if (res != 0) {
+        return (res);
+    }
+
     res = self_p->from_seek(self_p->arg_p, offset);
 
     if (res != 0) {
         return (-DETOOLS_IO_FAILED);
     }
 
-    self_p->from_offset += offset;
-
     if (self_p->to_offset == self_p->to_size) {
         self_p->state = detools_apply_patch_state_done_t;
     } else {
@@ -2028,7 +2048,11 @@ static int in_place_process_data(struct detools_apply_patch_in_place_t *self_p,
             return (-DETOOLS_IO_FAILED);
         }
 
-        self_p->segment.from_offset += (int)to_size;
+        res = common_add_offset(&self_p->segment.from_offset, (int)to_size);
+
+        if (res != 0) {
+            return (res);
+        }
 
         for (i = 0; i < to_size; i++) {
             to[i] = (uint8_t)(to[i] + from[i]);
@@ -2089,7 +2113,7 @@ static int in_place_process_adjustment(struct detools_apply_patch_in_place_t *se
         res = in_place_next_step(self_p);
         self_p->state = detools_apply_patch_state_dfpatch_size_t;
     } else {
-        self_p->segment.from_offset += offset;
+        res = common_add_offset(&self_p->segment.from_offset, offset);
         self_p->state = detools_apply_patch_state_diff_size_t;
     }
 
-- 
2.43.0


From 991d12f2b1534e52a3360b8e23324b013ceb7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 12/26] fix: do not report the end of CRLE data when scattered
 bytes are missing

---
 detools/compression/crle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/detools/compression/crle.py b/detools/compression/crle.py
index e6ebaff..7b97dcc 100644
--- a/detools/compression/crle.py
+++ b/detools/compression/crle.py
@@ -167,6 +167,7 @@ class CrleDecompressor(object):
     @property
     def eof(self):
         return (self._number_of_indata_bytes_left == 0
+                and self._number_of_scattered_bytes_left == 0
                 and len(self._outdata) == 0
                 and len(self._indata) == 0)
 
-- 
2.43.0


From 5dcf185434316ce0c549c07be6ddf8ab439d0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 13/26] fix: reject negative sizes in sequential, in-place and
 hdiffpatch patches

---
 detools/apply.py  | 23 ++++++++++++-----------
 detools/common.py |  9 +++++++++
 detools/info.py   |  9 +++++----
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/detools/apply.py b/detools/apply.py
index 4f49935..ad2bf99 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -23,6 +23,7 @@ from .common import format_bad_compression_number
 from .common import file_size
 from .common import file_read
 from .common import unpack_size
+from .common import unpack_non_negative_size
 from .common import peek_header_type
 from .common import unpack_header
 from .data_format import create_readers
@@ -87,7 +88,7 @@ class PatchReader(object):
 
 
 def iter_chunks(patch_reader, to_pos, to_size, message):
-    size = unpack_size(patch_reader)
+    size = unpack_non_negative_size(patch_reader)
 
     if to_pos + size > to_size:
         raise Error(message)
@@ -159,7 +160,7 @@ def read_header_sequential(fpatch):
                                                          patch_type))
 
     compression = convert_compression(compression)
-    to_size = unpack_size(fpatch)
+    to_size = unpack_non_negative_size(fpatch)
 
     return compression, to_size
 
@@ -182,8 +183,8 @@ def read_header_hdiffpatch(fpatch):
                                                          patch_type))
 
     compression = convert_compression(compression)
-    to_size = unpack_size(fpatch)
-    patch_size = unpack_size(fpatch)
+    to_size = unpack_non_negative_size(fpatch)
+    patch_size = unpack_non_negative_size(fpatch)
 
     return compression, to_size, patch_size
 
@@ -206,11 +207,11 @@ def read_header_in_place(fpatch):
                                                          patch_type))
 
     compression = convert_compression(compression)
-    memory_size = unpack_size(fpatch)
-    segment_size = unpack_size(fpatch)
-    shift_size = unpack_size(fpatch)
-    from_size = unpack_size(fpatch)
-    to_size = unpack_size(fpatch)
+    memory_size = unpack_non_negative_size(fpatch)
+    segment_size = unpack_non_negative_size(fpatch)
+    shift_size = unpack_non_negative_size(fpatch)
+    from_size = unpack_non_negative_size(fpatch)
+    to_size = unpack_non_negative_size(fpatch)
 
     return compression, memory_size, segment_size, shift_size, from_size, to_size
 
@@ -272,7 +273,7 @@ def apply_patch_in_place_segment(fmem,
 
     """
 
-    dfpatch_size = unpack_size(patch_reader)
+    dfpatch_size = unpack_non_negative_size(patch_reader)
 
     if dfpatch_size > 0:
         raise NotImplementedError()
@@ -305,7 +306,7 @@ def apply_patch_in_place_segment(fmem,
 
 
 def create_data_format_readers(patch_reader, ffrom, to_size):
-    dfpatch_size = unpack_size(patch_reader)
+    dfpatch_size = unpack_non_negative_size(patch_reader)
 
     if dfpatch_size > 0:
         data_format = unpack_size(patch_reader)
diff --git a/detools/common.py b/detools/common.py
index b2771f8..0f6e6f6 100644
--- a/detools/common.py
+++ b/detools/common.py
@@ -146,6 +146,15 @@ def unpack_size(fin):
     return unpack_size_with_length(fin)[0]
 
 
+def unpack_non_negative_size(fin):
+    size = unpack_size(fin)
+
+    if size < 0:
+        raise Error('Expected a non-negative size, but got {}.'.format(size))
+
+    return size
+
+
 def unpack_size_bytes(data):
     return unpack_size(BytesIO(data))
 
diff --git a/detools/info.py b/detools/info.py
index 41161ab..80038fd 100644
--- a/detools/info.py
+++ b/detools/info.py
@@ -9,6 +9,7 @@ from .common import PATCH_TYPE_IN_PLACE
 from .common import PATCH_TYPE_HDIFFPATCH
 from .common import file_size
 from .common import unpack_size
+from .common import unpack_non_negative_size
 from .common import unpack_size_with_length
 from .common import data_format_number_to_string
 from .common import peek_header_type
@@ -42,7 +43,7 @@ def patch_info_sequential_inner(patch_reader, to_size):
         # Diff data.
         size, number_of_bytes = unpack_size_with_length(patch_reader)
 
-        if to_pos + size > to_size:
+        if size < 0 or to_pos + size > to_size:
             raise Error("Patch diff data too long.")
 
         diff_sizes.append(size)
@@ -54,7 +55,7 @@ def patch_info_sequential_inner(patch_reader, to_size):
         size, number_of_bytes = unpack_size_with_length(patch_reader)
         number_of_size_bytes += number_of_bytes
 
-        if to_pos + size > to_size:
+        if size < 0 or to_pos + size > to_size:
             raise Error("Patch extra data too long.")
 
         extra_sizes.append(size)
@@ -85,7 +86,7 @@ def patch_info_sequential(fpatch, fsize):
         info = (0, [], [], [], 0)
     else:
         patch_reader = PatchReader(fpatch, compression)
-        dfpatch_size = unpack_size(patch_reader)
+        dfpatch_size = unpack_non_negative_size(patch_reader)
 
         if dfpatch_size > 0:
             data_format = unpack_size(patch_reader)
@@ -123,7 +124,7 @@ def patch_info_in_place(fpatch):
 
         for to_pos in range(0, to_size, segment_size):
             segment_to_size = min(segment_size, to_size - to_pos)
-            dfpatch_size = unpack_size(patch_reader)
+            dfpatch_size = unpack_non_negative_size(patch_reader)
 
             if dfpatch_size > 0:
                 data_format = unpack_size(patch_reader)
-- 
2.43.0


From b3993cb647ede47bb01af7e629b4e639a8b2f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 14/26] fix: reject negative sizes in bsdiff patches

---
 detools/apply.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/detools/apply.py b/detools/apply.py
index ad2bf99..2705815 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -242,6 +242,9 @@ def read_header_bsdiff(fpatch):
     diff_size = offtin(fpatch.read(8))
     to_size = offtin(fpatch.read(8))
 
+    if ctrl_size < 0 or diff_size < 0 or to_size < 0:
+        raise Error('Negative size in the patch header.')
+
     return ctrl_size, diff_size, to_size
 
 
@@ -467,7 +470,7 @@ def apply_patch_bsdiff(ffrom, fpatch, fto):
         adjustment = offtin(ctrl_decompressor.decompress(b'', 8))
 
         # Diff data.
-        if to_pos + diff_size > to_size:
+        if diff_size < 0 or to_pos + diff_size > to_size:
             raise Error("Patch diff data too long.")
 
         if diff_size > 0:
@@ -477,7 +480,7 @@ def apply_patch_bsdiff(ffrom, fpatch, fto):
             to_pos += diff_size
 
         # Extra data.
-        if to_pos + extra_size > to_size:
+        if extra_size < 0 or to_pos + extra_size > to_size:
             raise Error("Patch extra data too long.")
 
         if extra_size > 0:
-- 
2.43.0


From 1fe0ab44fdf7a55c0953baf8b92542e667ed3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 15/26] fix: do not create in-place patches that do not fit the
 memory

---
 detools/create.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/detools/create.py b/detools/create.py
index 036e6a7..3342d66 100644
--- a/detools/create.py
+++ b/detools/create.py
@@ -284,6 +284,17 @@ def create_patch_in_place(ffrom,
                             segment_size,
                             minimum_shift_size,
                             len(from_data))
+
+    if to_size > memory_size:
+        raise Error(
+            'To size {} is bigger than memory size {}.'.format(to_size,
+                                                               memory_size))
+
+    if shift_size > memory_size:
+        raise Error(
+            'Shift size {} is bigger than memory size {}.'.format(shift_size,
+                                                                  memory_size))
+
     shifted_size = (memory_size - shift_size)
     from_data = from_data[:shifted_size]
     number_of_to_segments = div_ceil(to_size, segment_size)
-- 
2.43.0


From 2ed8132d6d9172c6fa8933a41f360e40bab51aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 16/26] fix: do not write outside the memory when applying
 in-place patches

---
 detools/apply.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/detools/apply.py b/detools/apply.py
index 2705815..fc800a5 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -418,6 +418,13 @@ def apply_patch_in_place(fmem, fpatch):
      from_size,
      to_size) = read_header_in_place(fpatch)
 
+    if to_size > memory_size or shift_size > memory_size:
+        raise Error(
+            'To size {} and shift size {} do not fit memory size {}.'.format(
+                to_size,
+                shift_size,
+                memory_size))
+
     if to_size > 0:
         patch_reader = PatchReader(fpatch, compression)
         shift_memory(fmem, memory_size, shift_size, from_size)
-- 
2.43.0


From 404cbdecb1a627760cc36edc3698eb885684d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 17/26] fix: pack the smallest 64-bit size

---
 detools/bsdiff.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/detools/bsdiff.c b/detools/bsdiff.c
index ffca277..8162061 100644
--- a/detools/bsdiff.c
+++ b/detools/bsdiff.c
@@ -93,6 +93,7 @@ static int32_t search(int32_t *sa_p,
 static int pack_size(uint8_t *buf_p, int64_t value, size_t size)
 {
     int res;
+    uint64_t magnitude;
 
     if (size < 10) {
         return (-1);
@@ -106,18 +107,19 @@ static int pack_size(uint8_t *buf_p, int64_t value, size_t size)
     } else {
         if (value > 0) {
             buf_p[res] = 0;
+            magnitude = (uint64_t)value;
         } else {
             buf_p[res] = 0x40;
-            value *= -1;
+            magnitude = -(uint64_t)value;
         }
 
-        buf_p[res] |= (0x80 | (value & 0x3f));
-        value >>= 6;
+        buf_p[res] |= (0x80 | (magnitude & 0x3f));
+        magnitude >>= 6;
         res++;
 
-        while (value > 0) {
-            buf_p[res] = (0x80 | (value & 0x7f));
-            value >>= 7;
+        while (magnitude > 0) {
+            buf_p[res] = (0x80 | (magnitude & 0x7f));
+            magnitude >>= 7;
             res++;
         }
     }
-- 
2.43.0


From e943e170048e1f59598144b8a47d288396012498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 18/26] fix: release the buffers when add_bytes fails

---
 detools/bsdiff.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/detools/bsdiff.c b/detools/bsdiff.c
index 8162061..69a026d 100644
--- a/detools/bsdiff.c
+++ b/detools/bsdiff.c
@@ -584,8 +584,7 @@ static PyObject *m_add_bytes(PyObject *self_p, PyObject *args_p)
 
     if (first_view.len != second_view.len) {
         PyErr_SetString(PyExc_ValueError, "Lengths must be equal.");
-
-        return (NULL);
+        goto err1;
     }
 
     byte_array_p = PyByteArray_FromStringAndSize("", 1);
-- 
2.43.0


From 6350ad45be8f2b7ea7d8f17a1f308f6d9320df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 19/26] fix: set an exception when the suffix array cannot be
 created

---
 detools/suffix_array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detools/suffix_array.c b/detools/suffix_array.c
index bafa58c..831d03c 100644
--- a/detools/suffix_array.c
+++ b/detools/suffix_array.c
@@ -78,6 +78,9 @@ static PyObject *create(PyObject *self_p,
                           (int32_t)from_view.len);
 
     if (res != 0) {
+        PyErr_Format(PyExc_RuntimeError,
+                     "Suffix array creation failed with %d.",
+                     res);
         goto err2;
     }
 
-- 
2.43.0


From 505d54fdbf8ee54bb5e1580a17267a08978de6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 20/26] fix: write data format values with the top bit set

---
 detools/data_format/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detools/data_format/utils.py b/detools/data_format/utils.py
index 5f9f769..7c2a348 100644
--- a/detools/data_format/utils.py
+++ b/detools/data_format/utils.py
@@ -119,7 +119,7 @@ class DiffReader(object):
                                                self._pack_u64)
 
     def _pack_s32(self, value):
-        return struct.pack('<i', value)
+        return struct.pack('<I', value & 0xffffffff)
 
     def _pack_u64(self, value):
         return struct.pack('<Q', value)
-- 
2.43.0


From 368f6a4acdd12d4122c1ec30c05e781ac6926116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 21/26] fix: reject bsdiff patches with too little diff or
 extra data

---
 detools/apply.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/detools/apply.py b/detools/apply.py
index fc800a5..a20fdf9 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -248,6 +248,15 @@ def read_header_bsdiff(fpatch):
     return ctrl_size, diff_size, to_size
 
 
+def decompress_bsdiff_block(decompressor, size):
+    data = decompressor.decompress(b'', size)
+
+    if len(data) != size:
+        raise Error('Early end of patch data.')
+
+    return data
+
+
 def shift_memory(fmem, memory_size, shift_size, from_size):
     """Shift given memory.
 
@@ -481,7 +490,7 @@ def apply_patch_bsdiff(ffrom, fpatch, fto):
             raise Error("Patch diff data too long.")
 
         if diff_size > 0:
-            diff_data = diff_decompressor.decompress(b'', diff_size)
+            diff_data = decompress_bsdiff_block(diff_decompressor, diff_size)
             from_data = ffrom.read(diff_size)
             fto.write(bsdiff.add_bytes(diff_data, from_data))
             to_pos += diff_size
@@ -491,7 +500,7 @@ def apply_patch_bsdiff(ffrom, fpatch, fto):
             raise Error("Patch extra data too long.")
 
         if extra_size > 0:
-            extra_data = extra_decompressor.decompress(b'', extra_size)
+            extra_data = decompress_bsdiff_block(extra_decompressor, extra_size)
             fto.write(extra_data)
             to_pos += extra_size
 
-- 
2.43.0


From b7703416dfe3ff9b0f4ca32b370297a0f9770630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 22/26] fix: reject data segments that cannot be stored in the
 patch

---
 detools/data_format/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/detools/data_format/__init__.py b/detools/data_format/__init__.py
index f7f77ef..cfc3dd0 100644
--- a/detools/data_format/__init__.py
+++ b/detools/data_format/__init__.py
@@ -22,6 +22,17 @@ def encode(ffrom, fto, data_format, data_segment):
 
     """
 
+    # The end of the offsets is not part of the patch. It is
+    # calculated from the addresses when applying the patch.
+    offsets_size = (data_segment.from_data_offset_end
+                    - data_segment.from_data_offset_begin)
+    addresses_size = data_segment.from_data_end - data_segment.from_data_begin
+
+    if offsets_size != addresses_size:
+        raise Error(
+            'Expected from data offsets and addresses of the same size, but '
+            'got {} and {} bytes.'.format(offsets_size, addresses_size))
+
     if data_format == 'aarch64':
         return aarch64.encode(ffrom, fto, data_segment)
     elif data_format == 'arm-cortex-m4':
-- 
2.43.0


From 590b04f1bc7608f3a6f1174c13466c60752a8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 23/26] fix: create hdiffpatch patches of empty and in-memory
 files

Memory mapping fails for empty files and for objects without a file
descriptor. Read such files instead, like sequential patches do.
---
 detools/create.py | 49 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/detools/create.py b/detools/create.py
index 3342d66..34f9aee 100644
--- a/detools/create.py
+++ b/detools/create.py
@@ -397,26 +397,47 @@ def create_patch_bsdiff(ffrom, fto, fpatch):
     fpatch.write(fextra.getvalue())
 
 
+def create_patch_hdiffpatch_mmap(ffrom,
+                                 fto,
+                                 match_score,
+                                 match_block_size,
+                                 patch_type):
+    with mmap_read_only(ffrom) as from_mmap:
+        with mmap_read_only(fto) as to_mmap:
+            return hdiffpatch.create_patch(from_mmap,
+                                           to_mmap,
+                                           match_score,
+                                           match_block_size,
+                                           patch_type)
+
+
+def create_patch_hdiffpatch_heap(ffrom,
+                                 fto,
+                                 match_score,
+                                 match_block_size,
+                                 patch_type):
+    return hdiffpatch.create_patch(file_read(ffrom),
+                                   file_read(fto),
+                                   match_score,
+                                   match_block_size,
+                                   patch_type)
+
+
 def create_patch_hdiffpatch_generic(ffrom,
                                     fto,
                                     match_score,
                                     match_block_size,
                                     patch_type,
                                     use_mmap):
-    if use_mmap:
-        with mmap_read_only(ffrom) as from_mmap:
-            with mmap_read_only(fto) as to_mmap:
-                return hdiffpatch.create_patch(from_mmap,
-                                               to_mmap,
-                                               match_score,
-                                               match_block_size,
-                                               patch_type)
-    else:
-        return hdiffpatch.create_patch(file_read(ffrom),
-                                       file_read(fto),
-                                       match_score,
-                                       match_block_size,
-                                       patch_type)
+    args = (ffrom, fto, match_score, match_block_size, patch_type)
+
+    if not use_mmap:
+        return create_patch_hdiffpatch_heap(*args)
+
+    try:
+        return create_patch_hdiffpatch_mmap(*args)
+    except (io.UnsupportedOperation, ValueError):
+        return create_patch_hdiffpatch_heap(*args)
 
 
 def create_patch_hdiffpatch(ffrom,
-- 
2.43.0


From 3a563b479b1e42b71138d6a5029a0965aeedbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 24/26] fix: reject in-place patches with surplus data when
 showing information

Applying them fails, and information about sequential patches with
surplus data is refused as well.
---
 detools/info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detools/info.py b/detools/info.py
index 80038fd..d265fe7 100644
--- a/detools/info.py
+++ b/detools/info.py
@@ -136,6 +136,9 @@ def patch_info_in_place(fpatch):
             info = patch_info_sequential_inner(patch_reader, segment_to_size)
             segments.append((dfpatch_size, data_format, info))
 
+        if not patch_reader.eof:
+            raise Error('End of patch not found.')
+
     return (patch_size,
             compression,
             _compression_info(patch_reader),
-- 
2.43.0


From 55567163fdc22398ca2eca6aeb21b4b4ee0908c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 25/26] fix: ignore ELF sections that are not loaded when
 looking for addresses

---
 detools/__init__.py        | 5 +++++
 detools/data_format/elf.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/detools/__init__.py b/detools/__init__.py
index 75a8f82..3796d4a 100644
--- a/detools/__init__.py
+++ b/detools/__init__.py
@@ -9,6 +9,7 @@ import binascii
 from humanfriendly import format_size
 from humanfriendly import parse_size
 from humanfriendly import format_timespan
+from elftools.elf.constants import SH_FLAGS
 from elftools.elf.elffile import ELFFile
 
 from .create import create_patch
@@ -117,6 +118,10 @@ def find_offset_for_address(elffile, address):
     sections = []
 
     for section in elffile.iter_sections():
+        # Sections that are not loaded have no address.
+        if not section['sh_flags'] & SH_FLAGS.SHF_ALLOC:
+            continue
+
         sections.append((section['sh_addr'],
                          section['sh_offset'],
                          section['sh_size']))
diff --git a/detools/data_format/elf.py b/detools/data_format/elf.py
index f6e3320..cbd7e71 100644
--- a/detools/data_format/elf.py
+++ b/detools/data_format/elf.py
@@ -1,6 +1,7 @@
 from collections import defaultdict
 from operator import itemgetter
 
+from elftools.elf.constants import SH_FLAGS
 from elftools.elf.sections import SymbolTableSection
 
 from ..errors import Error
@@ -96,6 +97,10 @@ def find_section_index_for_symbol(elffile, symbol):
     address = symbol['st_value']
 
     for index, section in enumerate(elffile.iter_sections()):
+        # Sections that are not loaded have no address.
+        if not section['sh_flags'] & SH_FLAGS.SHF_ALLOC:
+            continue
+
         begin = section['sh_addr']
         size = section['sh_size']
 
-- 
2.43.0


From 924b9b18a84a744c66461c22c5ba5195b5bad3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 26/26] fix: find the end of compressed patches that is read
 separately from the data

---
 detools/apply.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/detools/apply.py b/detools/apply.py
index a20fdf9..94b74c2 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -52,6 +52,7 @@ class PatchReader(object):
             raise Error(format_bad_compression_string(compression))
 
         self._fpatch = fpatch
+        self._data = b''
 
     def read(self, size):
         return self.decompress(size)
@@ -61,7 +62,8 @@ class PatchReader(object):
 
         """
 
-        buf = b''
+        buf = self._data[:size]
+        self._data = self._data[size:]
 
         while len(buf) < size:
             if self.decompressor.eof:
@@ -84,7 +86,15 @@ class PatchReader(object):
 
     @property
     def eof(self):
-        return self.decompressor.eof
+        # All data may be available before the end of the stream has
+        # been read from the patch.
+        if not self._data and not self.decompressor.eof:
+            try:
+                self._data = self.decompress(1)
+            except Error:
+                pass
+
+        return not self._data and self.decompressor.eof
 
 
 def iter_chunks(patch_reader, to_pos, to_size, message):
-- 
2.43.0

