From a8f24a49ff8420b7ef23cf8453a4bcdf5133d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:32 +0000
Subject: [PATCH 01/44] fix: pairwise() of an empty series yields nothing
 instead of raising RuntimeError

---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From 734b1b2140d1cbbbcd50d4ff1bacfc85d6a6ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:54 +0000
Subject: [PATCH 02/44] fix: pickling a header preserves fields inherited from
 its base format

---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From 77f577006192176352954b7f8b15c5127a439ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:54 +0000
Subject: [PATCH 03/44] fix: unpack header fields correctly when they are not
 declared in offset order

---
 segpy/packer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..cd67b93 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -221,7 +221,10 @@ class BijectiveHeaderPacker(HeaderPacker):
         return self._structure.pack(*values)
 
     def _unpack(self, values):
-        return self._header_format_class(*values)
+        # The values are in offset order, which is not necessarily the order in which the fields were declared
+        kwargs = {names[0]: value
+                  for names, value in zip(self._field_name_allocations, values)}
+        return self._header_format_class(**kwargs)
 
 
 class SurjectiveHeaderPacker(HeaderPacker):
-- 
2.43.0


From 0928177682079915b0fcabf6466a6c0aeeb59f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:02 +0000
Subject: [PATCH 04/44] fix: catalog_traces() reports progress between zero and
 one

---
 segpy/toolkit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..3eeffe5 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -307,6 +307,8 @@ def read_extended_textual_headers(fh, binary_reel_header, encoding):
 _READ_PROPORTION = 0.75  # The proportion of time spent in catalog_traces
                          # reading the file. Determined empirically.
 
+_BUILD_PROPORTION = 1 - _READ_PROPORTION  # The remaining time is spent building the catalogs.
+
 
 def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', progress=None):
     """Build catalogs to facilitate random access to trace_samples data.
@@ -388,7 +390,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +412,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (_BUILD_PROPORTION / 4))
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (_BUILD_PROPORTION / 2))
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (_BUILD_PROPORTION * 3 / 4))
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From 96128fbc59c23371bbfa2daedf1b1b779db1bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:02 +0000
Subject: [PATCH 05/44] fix: preserve blank lines in extended textual headers

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 3eeffe5..50c4e44 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -725,7 +725,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From cb7435f65aade32e67f378d8de1c87125ffdbe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:02 +0000
Subject: [PATCH 06/44] fix: make_sorted_distinct_sequence(sense=None) no
 longer loses the items of an iterator

---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From 37a8f41c1a3093ae17d6948206abecc884679543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 07/44] fix: read traces whose header format has no inline,
 crossline or ensemble numbers

---
 segpy/toolkit.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 50c4e44..3f3e61d 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -367,14 +367,18 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    # Not every trace header format has these fields. For example, SEG Y Revision 0
+    # has no inline or crossline numbers.
+    format_field_names = trace_header_format.ordered_field_names()
+    has_cdp = 'ensemble_num' in format_field_names
+    has_lines = 'inline_number' in format_field_names and 'crossline_number' in format_field_names
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
                            parent_field_names=(
-                               'file_sequence_num',
-                               'ensemble_num',
-                               'num_samples',
-                               'inline_number',
-                               'crossline_number',
+                               ('num_samples',)
+                               + (('ensemble_num',) if has_cdp else ())
+                               + (('inline_number', 'crossline_number') if has_lines else ())
                            )):
         pass
 
@@ -402,10 +406,12 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
-        cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
+        if has_lines:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
+        if has_cdp:
+            cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
 
@@ -417,10 +423,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     trace_length_catalog = trace_length_catalog_builder.create()
     progress_callback(_READ_PROPORTION + (_BUILD_PROPORTION / 2))
 
-    cdp_catalog = cdp_catalog_builder.create()
+    cdp_catalog = cdp_catalog_builder.create() if has_cdp else None
     progress_callback(_READ_PROPORTION + (_BUILD_PROPORTION * 3 / 4))
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_lines else None
 
     progress_callback(1)
 
-- 
2.43.0


From 1d02d92edf69fb7130ed81df1f11fc0915e6e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 08/44] fix: a cached reader reads from the file-like object it
 was requested for

---
 segpy/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..a8c9e2e 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -147,6 +147,11 @@ def create_reader(
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
             reader = _load_reader_from_cache(cache_file_path, seg_y_path)
+            if reader is not None:
+                # Unpickling opened the file from which the cached reader was made, which need
+                # no longer be (or have the same contents as) the file we've been given.
+                reader._fh.close()
+                reader._fh = fh
 
     if reader is None:
         reader = _make_reader(fh, encoding, binary_reel_header_format, trace_header_format,
-- 
2.43.0


From 44197b219f01899f7973374a356a3cca016e9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 09/44] fix: an unusable cache location or entry no longer
 prevents a file from being read

---
 segpy/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index a8c9e2e..48d5e23 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -201,8 +201,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
@@ -234,7 +234,13 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
     if not (cache_file_path.exists() and cache_file_path.is_file()):
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    try:
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.info("Could not open cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
+        return None
+
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From fd6a3e17b08b9aee61f18f5ac98786ceaa289386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 10/44] fix: accept file objects which are named by a file
 descriptor or a bytes path

---
 segpy/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..320fc61 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -264,10 +264,11 @@ def filename_from_handle(fh):
         A string containing the file name, or UNKNOWN_FILENAME if it could not
         be determined.
     """
-    try:
-        return fh.name
-    except AttributeError:
+    name = getattr(fh, 'name', None)
+    if not isinstance(name, (str, bytes, os.PathLike)):
+        # Some file objects are named only by an integer file descriptor
         return UNKNOWN_FILENAME
+    return os.fsdecode(name)
 
 
 def now_millis():
-- 
2.43.0


From f93eb8b3bafd4dfb05eba6cd1290548ed599992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 11/44] fix: IBMFloats are equal exactly when their values are
 equal

---
 segpy/ibm_float.py | 36 +-----------------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..2c64ea1 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -321,41 +321,7 @@ class IBMFloat(Real):
         if not isinstance(rhs, IBMFloat):
             return NotImplemented
 
-        if lhs._data == rhs._data:
-            return True
-
-        lhs_sign = lhs.signbit
-        rhs_sign = rhs.signbit
-
-        if lhs_sign != rhs_sign:
-            return False
-
-        nlhs = lhs.try_normalize()
-        nrhs = rhs.try_normalize()
-
-        if not (nlhs.is_subnormal() or nrhs.is_subnormal()):
-            # Both of the numbers are normalised
-            return nlhs._data == nrhs._data
-
-        # Either or both of the numbers are subnormal
-        lhs_exp16 = nlhs.exp16
-        rhs_exp16 = nrhs.exp16
-
-        lhs_mantissa = nlhs.int_mantissa
-        rhs_mantissa = nrhs.int_mantissa
-
-        if lhs_exp16 < rhs_exp16:
-            delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
-
-        if lhs_exp16 > rhs_exp16:
-            delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
-
-        assert lhs_exp16 == rhs_exp16
-        return lhs_mantissa == rhs_mantissa
+        return lhs.as_integer_ratio() == rhs.as_integer_ratio()
 
     @property
     def exp16(self):
-- 
2.43.0


From 93a23aa4a00add9fd413e548471838c12881c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 12/44] fix: ReversedSequenceView supports slicing and
 reversed() as sequences do

---
 segpy/reversed_sequence_view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/reversed_sequence_view.py b/segpy/reversed_sequence_view.py
index 1ee4769..4007f05 100644
--- a/segpy/reversed_sequence_view.py
+++ b/segpy/reversed_sequence_view.py
@@ -16,6 +16,8 @@ class ReversedSequenceView(Sequence):
         return reversed(self._sequence)
 
     def __getitem__(self, index):
+        if isinstance(index, slice):
+            return [self[i] for i in range(*index.indices(len(self)))]
         r = self._reverse_index(index)
         return self._sequence[r]
 
@@ -23,7 +25,7 @@ class ReversedSequenceView(Sequence):
         return self._sequence.count(item)
 
     def __reversed__(self):
-        return self._sequence
+        return iter(self._sequence)
 
     def index(self, item):
         # TODO: Add support for start and stop
-- 
2.43.0


From 1ade20ea082f4e3c1bce10871b7fbd1c4edd6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 13/44] fix: a sub-format has the attributes of its parent
 format where the parent overrides its bases

---
 segpy/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index dc9bdb2..9b16bd0 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -185,7 +185,9 @@ class SubFormatMeta(FormatMeta):
 
         # Copy other non-field class attributes
         non_field_attributes = list(collect_attributes(parent_format, BaseHeader, is_public_non_field_attr))
-        namespace.update((name, value) for _, name, value in non_field_attributes)
+        for _, attr_name, value in non_field_attributes:
+            # Attributes are collected in method resolution order, so the first definition of a name applies
+            namespace.setdefault(attr_name, value)
 
         # Add a reference back to the original format
         namespace['_parent_format'] = parent_format
-- 
2.43.0


From aa6dec0fd8bc7cd0f84fa6704190558925026963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 14/44] fix: files recording common erroneous variants of
 revision 1 can be read

---
 segpy/revisions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segpy/revisions.py b/segpy/revisions.py
index 2c87910..b473025 100644
--- a/segpy/revisions.py
+++ b/segpy/revisions.py
@@ -19,6 +19,11 @@ class SegYRevision(IntEnum):
     REVISION_0 = 0x0000
     REVISION_1 = 0x0100
 
+    @classmethod
+    def _missing_(cls, value):
+        # Allow the common erroneous variants to be read from file headers
+        return VARIANTS.get(value)
+
 
 VARIANTS = {
     SegYRevision.REVISION_0: SegYRevision.REVISION_0,  # Ensure that SEGY_REVISION_0 maps to itself
-- 
2.43.0


From e0f57fd2cba5a71bd871a01d08df6e9932085777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 15/44] fix: read trace headers in which data_use or correlated
 is unset (zero)

---
 segpy/trace_header.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segpy/trace_header.py b/segpy/trace_header.py
index 65a3f26..8e3a76f 100644
--- a/segpy/trace_header.py
+++ b/segpy/trace_header.py
@@ -8,6 +8,7 @@ class DataUse(IntEnum):
     """Data use:
     1 = Production,
     2 = Test"""
+    UNKNOWN = 0
     PRODUCTION = 1
     TEST = 2
 
@@ -65,6 +66,7 @@ class CoordinateUnitsField(metaclass=IntEnumFieldMeta,
 
 class Correlated(IntEnum):
     "Correlated: 1 = no, 2 = yes."
+    UNKNOWN = 0
     NO = 1
     YES = 2
 
-- 
2.43.0


From 1c2b3348020fb8e80cf43ba75f6a24958951b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 16/44] fix: the datum elevation at the receiver group may be
 negative

---
 segpy/trace_header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/trace_header.py b/segpy/trace_header.py
index 8e3a76f..dd78505 100644
--- a/segpy/trace_header.py
+++ b/segpy/trace_header.py
@@ -329,8 +329,8 @@ class TraceHeaderRev0(Header):
         "Source depth below surface (a positive number). The elevation_scalar applies to this value.")
 
     datum_elevation_at_receiver_group = field(
-        NNInt32, offset=53, default=0, documentation=
-        "Source depth below surface (a positive number). The elevation_scalar applies to this value.")
+        Int32, offset=53, default=0, documentation=
+        "Datum elevation at receiver group. The elevation_scalar applies to this value.")
 
     datum_elevation_at_source = field(
         Int32, offset=57, default=0, documentation=
-- 
2.43.0


From 14aabbab174b6686d50537f9657e106f7a91bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 17/44] fix: non-negative trace header fields can be extracted
 as arrays

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..2bd71c2 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,9 +4,12 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('i4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('i1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From b168f499cd5fcd0c840e994fc4a1b258a6a396c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 18/44] fix: accept empty and single item subsets of regularly
 spaced numbers

---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..d4b7cfd 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,11 +4,13 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
-    if subset_range.start not in superset_range:
+    if len(subset_range) == 0:
+        return True
+    if subset_range[0] not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
+    if subset_range[-1] not in superset_range:
         return False
-    if subset_range[-1] > superset_range[-1]:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
     assert set(subset_range).issubset(set(superset_range))
     return True
-- 
2.43.0


From a17269d1a1cf426e9b0654f17ce3e5b2d06d2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 19/44] fix: extract sections through traces of differing
 lengths

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 34 +++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..bf03db7 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -234,7 +234,7 @@ def extract_inline_3d(reader_3d, inline_number, xline_numbers=None, sample_numbe
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array)
     else:
         _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numbers, sample_numbers, array)
@@ -247,12 +247,10 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < len(trace_samples):
+                    array[xline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -264,7 +262,8 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[xline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -323,7 +322,7 @@ def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_number
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array)
     else:
         _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbers, sample_numbers, array)
@@ -336,12 +335,10 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < len(trace_samples):
+                    array[inline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -353,7 +350,8 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[inline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
@@ -414,13 +412,17 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
     array = _make_array(shape, dtype, null)
     sample_number_stop = sample_number + 1
 
+    if not (0 <= sample_number < reader_3d.max_num_trace_samples()):
+        raise ValueError("Sample number {} not present in {}".format(sample_number, reader_3d))
+
     for inline_index, inline_number in enumerate(inline_numbers):
         for xline_index, xline_number in enumerate(xline_numbers):
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
-                trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                if sample_number < reader_3d.num_trace_samples(trace_index):
+                    trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
+                    array[inline_index, xline_index] = trace_samples[0]
     return array
 
 
-- 
2.43.0


From d4e274fbf1a4e5ab43ca48c6e3899fa023d33791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 20/44] fix: extract_trace() takes a trace index and only
 samples of that trace

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index bf03db7..40cc0fd 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -165,15 +165,13 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if not (0 <= trace_index < reader.num_traces()):
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
-    trace_sample_start = sample_numbers[0]
-    trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-    trace_samples = reader.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
-    arr = np.fromiter((trace_samples[sample_number - trace_sample_start] for sample_number in sample_numbers),
+    trace_samples = reader.trace_samples(trace_index)
+    arr = np.fromiter((trace_samples[sample_number] for sample_number in sample_numbers),
                       make_dtype(reader.data_sample_format))
     return arr
 
-- 
2.43.0


From 312c4d7ce969d45f129dcb875ea6797856884964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 21/44] fix: a cached reader is not used once the definition of
 a header format has changed

---
 segpy/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 48d5e23..3eb3d44 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,7 +142,8 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             _header_layout(binary_reel_header_format), _header_layout(trace_header_format))
         seg_y_path = filename_from_handle(fh)
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
@@ -164,6 +165,11 @@ def create_reader(
     return reader
 
 
+def _header_layout(header_format_class):
+    """A description of the fields of a header format, which can change without its class name changing."""
+    return [getattr(header_format_class, name) for name in header_format_class.ordered_field_names()]
+
+
 def _locate_cache_file(seg_y_path, cache_directory, sha1):
     """Determine the location of the cache file.
 
-- 
2.43.0


From 126fecc8ee07f5065e8517ec99739e973d21a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 22/44] fix: dividing a float by an IBMFloat gives a float

---
 segpy/ibm_float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 2c64ea1..8160f83 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -410,7 +410,7 @@ class IBMFloat(Real):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
         q = float(lhs) / float(self)
-        return IBMFloat.from_float_without_underflow(q) if isinstance(lhs, float) else q
+        return IBMFloat.from_float_without_underflow(q) if isinstance(lhs, IBMFloat) else q
 
     def __pow__(self, exponent):
         # Python's 64-bit float has much more precision than this
-- 
2.43.0


From 83749c4a6e207a8274a8331de7ccb5398750e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:35 +0000
Subject: [PATCH 23/44] fix: a header refuses keyword arguments which are not
 field names, attributes included

---
 segpy/header.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index 9b16bd0..ab510c4 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -31,13 +31,10 @@ class BaseHeader:
             setattr(self, keyword, arg)
 
         for keyword, arg in kwargs.items():
-            try:
-                getattr(self, keyword)
-            except AttributeError as e:
+            if not isinstance(getattr(type(self), keyword, None), NamedField):
                 raise TypeError("{!r} is not a recognised field name for {!r}"
-                                .format(keyword, self.__class__.__name__)) from e
-            else:
-                setattr(self, keyword, arg)
+                                .format(keyword, self.__class__.__name__))
+            setattr(self, keyword, arg)
 
     _ordered_field_names = tuple()
 
-- 
2.43.0


From 4cba561a8524d6f4cd20b527e77a1abfd6b9ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:29 +0000
Subject: [PATCH 24/44] fix: a damaged cache entry is discarded rather than
 used

---
 segpy/reader.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 3eb3d44..1d24763 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -5,6 +5,8 @@ a SegYReader object.  The properties and methods of the SegYReader
 instance can be used to extract SEG Y data.
 """
 
+import hashlib
+import io
 import os
 import pickle
 from pathlib import Path
@@ -34,6 +36,9 @@ from segpy.toolkit import (extract_revision,
 log = logging.getLogger(__name__)
 log.setLevel('INFO')
 
+# The pickled reader in a cache entry is followed by this marker and a digest of the pickle
+_CACHE_DIGEST_MARKER = b'segpy-sha1:'
+
 
 def create_reader(
         fh,
@@ -210,11 +215,14 @@ def _save_reader_to_cache(reader, cache_file_path):
     try:
         os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
+            buffer = io.BytesIO()
             try:
-                pickle.dump(reader, cache_file)
+                pickle.dump(reader, buffer)
             except (AttributeError, pickle.PicklingError, TypeError) as pickling_error:
                 log.warn("Could not pickle {} because {}".format(reader, pickling_error))
-                pass
+            else:
+                entry = buffer.getvalue()
+                cache_file.write(entry + _CACHE_DIGEST_MARKER + hashlib.sha1(entry).digest())
     except OSError as os_error:
         log.warn("Could not cache {} because {}".format(reader, os_error))
 
@@ -248,7 +256,11 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
 
     with pickle_file:
         try:
-            reader = pickle.load(pickle_file)
+            data = pickle_file.read()
+            entry, marker, digest = data.rpartition(_CACHE_DIGEST_MARKER)
+            if marker and hashlib.sha1(entry).digest() != digest:
+                raise pickle.UnpicklingError("its digest does not match its contents")
+            reader = pickle.load(io.BytesIO(data))
         except Exception as unpickling_error:
             log.info("Could not unpickle reader for {} because {}".format(seg_y_path, unpickling_error))
             try:
-- 
2.43.0


From 7fd5a3657e8770bb4b27910a09e1d53ae0722fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 25/44] fix: a cached reader is not used once the extent of a
 header format has changed

---
 segpy/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 1d24763..b13d301 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -172,7 +172,9 @@ def create_reader(
 
 def _header_layout(header_format_class):
     """A description of the fields of a header format, which can change without its class name changing."""
-    return [getattr(header_format_class, name) for name in header_format_class.ordered_field_names()]
+    return (getattr(header_format_class, 'START_OFFSET_IN_BYTES', 0),
+            getattr(header_format_class, 'LENGTH_IN_BYTES', None),
+            [getattr(header_format_class, name) for name in header_format_class.ordered_field_names()])
 
 
 def _locate_cache_file(seg_y_path, cache_directory, sha1):
-- 
2.43.0


From 9d08d10f7ca87464690d00163b79fe0f86b201ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:44 +0000
Subject: [PATCH 26/44] fix: a cache location which cannot be examined no
 longer prevents a file from being read

---
 segpy/reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index b13d301..7b0b852 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -247,10 +247,9 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         TypeError: If the pickle could be read, but did not contain a SegYReader.
     """
 
-    if not (cache_file_path.exists() and cache_file_path.is_file()):
-        return None
-
     try:
+        if not (cache_file_path.exists() and cache_file_path.is_file()):
+            return None
         pickle_file = cache_file_path.open('rb')
     except OSError as os_error:
         log.info("Could not open cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
-- 
2.43.0


From c0e1c2252f30634582dbb44bd48ae683ddcf69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 27/44] fix: progress of write_segy() counts the traces written

The index of a trace says nothing of the progress made when a dataset
gives its traces in another order, for which progress went backwards.
---
 segpy/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/writer.py b/segpy/writer.py
index 5a1ddb9..9dbf65c 100644
--- a/segpy/writer.py
+++ b/segpy/writer.py
@@ -53,9 +53,9 @@ def write_segy(fh,
 
     num_traces = dataset.num_traces()
 
-    for trace_index in dataset.trace_indexes():
+    for num_written, trace_index in enumerate(dataset.trace_indexes()):
         write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
         write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
-        progress_callback(trace_index / num_traces)
+        progress_callback(num_written / num_traces)
 
     progress_callback(1)
-- 
2.43.0


From 9150f7d7208b313eeb762d5867b9f7102e4a2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:40 +0000
Subject: [PATCH 28/44] fix: is_sorted() considers the keys of ranges and
 sorted sets too

---
 segpy/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 320fc61..f850d31 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -325,20 +325,22 @@ def four_bytes(byte_str):
 
 
 def is_sorted(iterable, key=None, reverse=False, distinct=False):
-    if key is None:
+    # The order of the keys can only be known from the type of the items where they are the items
+    has_key = key is not None
+    if not has_key:
         key = identity
     if reverse:
         if distinct:
-            if isinstance(iterable, range) and iterable.step < 0:
+            if not has_key and isinstance(iterable, range) and iterable.step < 0:
                 return True
             op = operator.gt
         else:
             op = operator.ge
     else:
         if distinct:
-            if isinstance(iterable, range) and iterable.step > 0:
+            if not has_key and isinstance(iterable, range) and iterable.step > 0:
                 return True
-            if isinstance(iterable, SortedFrozenSet):
+            if not has_key and isinstance(iterable, SortedFrozenSet):
                 return True
             op = operator.lt
         else:
-- 
2.43.0


From b20e5af3d1f663241ce8772cdd5784f81889fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:40 +0000
Subject: [PATCH 29/44] fix: make_sorted_distinct_sequence() accepts comparable
 values other than integers

Strings and floats, which can't be the items of a range, raised TypeError.
---
 segpy/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segpy/util.py b/segpy/util.py
index f850d31..3a604e4 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -9,6 +9,7 @@ import fractions
 from contextlib import contextmanager
 from enum import Enum
 from itertools import (islice, cycle, tee, chain, repeat, groupby)
+from numbers import Integral
 
 from segpy.reversed_sequence_view import ReversedSequenceView
 from segpy.sorted_frozen_set import SortedFrozenSet
@@ -439,6 +440,9 @@ def compress_sorted_sequence_to_range(sorted_sequence):
         An ordered sequence which may be a range or may be
         the unaltered argument.
     """
+    if not all(isinstance(item, Integral) for item in sorted_sequence):
+        # Only integers can be represented by a range
+        return sorted_sequence
     if len(sorted_sequence) == 1:
         return single_item_range(sorted_sequence[0])
     stride = measure_stride(sorted_sequence)
-- 
2.43.0


From bf503f6e953cdfb28765c4f33bd1a1988479f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 30/44] fix: numpy extraction of IBM float samples into masked
 arrays

numpy.ma takes the _data attribute of whatever is assigned to an element,
and so the bytes of an IBMFloat rather than its value.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 40cc0fd..5d1630d 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -248,7 +248,7 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < len(trace_samples):
-                    array[xline_index, sample_index] = trace_samples[sample_number]
+                    array[xline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -336,7 +336,7 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < len(trace_samples):
-                    array[inline_index, sample_index] = trace_samples[sample_number]
+                    array[inline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -420,7 +420,7 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
                 if sample_number < reader_3d.num_trace_samples(trace_index):
                     trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                    array[inline_index, xline_index] = trace_samples[0]
+                    array[inline_index, xline_index] = array.dtype.type(trace_samples[0])
     return array
 
 
-- 
2.43.0


From 878b2425e11a51b35f5528d7160844901670f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 31/44] fix: compare IBMFloats with integers exactly, whatever
 their size

---
 segpy/ibm_float.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 8160f83..91a30e0 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -133,6 +133,11 @@ def ieee2ibm(f):
     return bytes((a, b, c, d))
 
 
+def _exactly_comparable(value):
+    """A value with which a float can be compared, without rounding integers to the nearest float."""
+    return value if isinstance(value, Rational) else float(value)
+
+
 class IBMFloat(Real):
 
     __slots__ = ['_data']
@@ -478,22 +483,22 @@ class IBMFloat(Real):
     def __lt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) < float(rhs)
+        return float(self) < _exactly_comparable(rhs)
 
     def __le__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) <= float(rhs)
+        return float(self) <= _exactly_comparable(rhs)
 
     def __gt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) > float(rhs)
+        return float(self) > _exactly_comparable(rhs)
 
     def __ge__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) >= float(rhs)
+        return float(self) >= _exactly_comparable(rhs)
 
     def __ceil__(self):
         t = trunc(self)
-- 
2.43.0


From afccf8ece8b72ab18ff5608105670c35b9493311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 32/44] fix: the limits of float32 are those of the greatest
 float32

---
 segpy/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/datatypes.py b/segpy/datatypes.py
index e1cfa51..10b0f89 100644
--- a/segpy/datatypes.py
+++ b/segpy/datatypes.py
@@ -112,7 +112,7 @@ LIMITS = {
     SegYType.NNINT32: Limits(0, 2147483647),
     SegYType.INT16: Limits(-32768, 32767),
     SegYType.NNINT16: Limits(0, 32767),
-    SegYType.FLOAT32: Limits(-3.402823e38, 3.402823e38),
+    SegYType.FLOAT32: Limits(-3.4028234663852886e38, 3.4028234663852886e38),
     SegYType.INT8: Limits(-128, 127),
     SegYType.NNINT8: Limits(0, 127)
 }
-- 
2.43.0


From d1f4bcef6d82d4408888ded2feebdac97df50dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 33/44] fix: do not use a cached reader whose header formats
 are no longer those given

---
 segpy/reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 7b0b852..c4f00e3 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -157,7 +157,12 @@ def create_reader(
                 # Unpickling opened the file from which the cached reader was made, which need
                 # no longer be (or have the same contents as) the file we've been given.
                 reader._fh.close()
-                reader._fh = fh
+                # The names of the header formats may since have come to refer to other classes
+                if (reader.trace_header_format_class is trace_header_format
+                        and type(reader.binary_reel_header) is binary_reel_header_format):
+                    reader._fh = fh
+                else:
+                    reader = None
 
     if reader is None:
         reader = _make_reader(fh, encoding, binary_reel_header_format, trace_header_format,
-- 
2.43.0


From 32c97a22d4c16e2b20a23e8e464a5a72a106cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:08 +0000
Subject: [PATCH 34/44] fix: the numpy example programs write the arrays they
 extract

---
 .../segpy_numpy/examples/extract_inline.py     | 18 +++++++-----------
 .../examples/extract_trace_header_field.py     | 18 +++++++-----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/segpy-ext/segpy_numpy/examples/extract_inline.py b/segpy-ext/segpy_numpy/examples/extract_inline.py
index c0a5adb..b2aa61c 100644
--- a/segpy-ext/segpy_numpy/examples/extract_inline.py
+++ b/segpy-ext/segpy_numpy/examples/extract_inline.py
@@ -43,7 +43,7 @@ class DimensionalityError(Exception):
     pass
 
 
-def extract_inline(segy_filename, inline_number, null=None):
+def extract_inline(segy_filename, out_filename, inline_number, null=0):
     """Extract a timeslice from a 3D SEG Y file to a Numpy NPY file.
 
     Args:
@@ -51,7 +51,7 @@ def extract_inline(segy_filename, inline_number, null=None):
 
         out_filename: Filename of the NPY file.
 
-        inline_index: The zero-based index (increasing with depth) of the slice to be extracted.
+        inline_number: The number of the inline to be extracted.
 
         null: Optional sample value to use for missing or short traces. Defaults to zero.
     """
@@ -59,11 +59,7 @@ def extract_inline(segy_filename, inline_number, null=None):
 
         segy_reader = create_reader(segy_file)
         inline_array = extract_inline_3d(segy_reader, inline_number, null=null)
-        return inline_array
-
-
-def nullable_float(s):
-    return None if not bool(s) else float(s)
+        np.save(out_filename, inline_array)
 
 
 def main(argv=None):
@@ -75,9 +71,9 @@ def main(argv=None):
                         help="Path to the Numpy array file to be created for the timeslice")
 
     parser.add_argument("inline_number", metavar="inline-number", type=int,
-                        help="Zero based index of the inline to be extracted", )
+                        help="Number of the inline to be extracted", )
 
-    parser.add_argument("--null",  type=nullable_float, default="",
+    parser.add_argument("--null",  type=float, default=0.0,
                         help="Sample value to use for missing or short traces.")
 
     if argv is None:
@@ -86,11 +82,11 @@ def main(argv=None):
     args = parser.parse_args(argv)
 
     try:
-        inline_array = extract_inline(
+        extract_inline(
             segy_filename=args.segy_file,
+            out_filename=args.npy_file,
             inline_number=args.inline_number,
             null=args.null)
-        inline_array.tofile(args.npy_file)
     except (FileNotFoundError, IsADirectoryError) as e:
         print(e, file=sys.stderr)
         return os.EX_NOINPUT
diff --git a/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py b/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
index 2e23f7a..2bce41d 100644
--- a/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
+++ b/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
@@ -45,7 +45,7 @@ class DimensionalityError(Exception):
 
 
 
-def extract_header_field(segy_filename, out_filename, field_name, null=None):
+def extract_header_field(segy_filename, out_filename, field_name, null=0):
     """Extract a timeslice from a 3D SEG Y file to a Numpy NPY file.
 
     Args:
@@ -53,9 +53,9 @@ def extract_header_field(segy_filename, out_filename, field_name, null=None):
 
         out_filename: Filename of the NPY file.
 
-        inline_index: The zero-based index (increasing with depth) of the slice to be extracted.
+        field_name: The name of the trace header field to be extracted.
 
-        null: Optional sample value to use for missing or short traces. Defaults to zero.
+        null: Optional header value to use for missing traces. Defaults to zero.
     """
     header_field = getattr(TraceHeaderRev1, field_name)
 
@@ -63,12 +63,8 @@ def extract_header_field(segy_filename, out_filename, field_name, null=None):
 
         segy_reader = create_reader(segy_file)
 
-        header_field_arrays = extract_trace_header_field_3d(segy_reader, [header_field], null)
-        return header_field_arrays
-
-
-def nullable_int(s):
-    return None if not bool(s) else int(s)
+        header_field_arrays = extract_trace_header_field_3d(segy_reader, [header_field], null=null)
+        np.save(out_filename, getattr(header_field_arrays, field_name))
 
 
 def main(argv=None):
@@ -82,8 +78,8 @@ def main(argv=None):
     parser.add_argument("field_name", metavar="field-name", type=str,
                         help="Name of the trace header field to be extracted", )
 
-    parser.add_argument("--null",  type=nullable_int, default="",
-                        help="Header value to use for missing or short traces.")
+    parser.add_argument("--null",  type=int, default=0,
+                        help="Header value to use for missing traces.")
 
     if argv is None:
         argv = sys.argv[1:]
-- 
2.43.0


From c98f91a24609fa6bb9cd13a6e1b37555975d124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 35/44] fix: regular catalogs refuse key strides which are not
 positive

---
 segpy/catalog.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/segpy/catalog.py b/segpy/catalog.py
index 0e84d25..fbf1a87 100644
--- a/segpy/catalog.py
+++ b/segpy/catalog.py
@@ -518,11 +518,17 @@ class RegularConstantCatalog(Mapping):
             key_max: The maximum key.
             key_stride: The difference between successive keys.
             value: A value associated with all keys.
+
+        Raises:
+            ValueError: There is any inconsistency in the keys and/or stride.
         """
         if key_min > key_max:
             raise ValueError("key_min {} is greater than key_max {}, but key_min must be equal or less-than key_max."
                              .format(key_min, key_max))
 
+        if key_stride <= 0:
+            raise ValueError("key_stride {} is not positive".format(key_stride))
+
         key_range = key_max - key_min
         if key_range % key_stride != 0:
             raise ValueError("RegularIndex key range {!r} is not "
@@ -625,6 +631,9 @@ class RegularCatalog(Mapping):
             raise ValueError("key_min {} is greater than key_max {}, but key_min must be equal or less-than key_max."
                              .format(key_min, key_max))
 
+        if key_stride <= 0:
+            raise ValueError("key_stride {} is not positive".format(key_stride))
+
         key_range = key_max - key_min
         if key_range % key_stride != 0:
             raise ValueError("{} key range {!r} is not "
-- 
2.43.0


From 3ecd1a3cb2d81f9b028a1a11cdf136a8954c3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 36/44] fix: a restored reader opens its file without creating
 it, whatever mode it was opened in

---
 segpy/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index c4f00e3..76f2a6a 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -413,7 +413,8 @@ class SegYReader(Dataset):
             raise TypeError("Cannot pickle {} object where file handle has filename {!r}"
                             .format(self.__class__.__name__, filename))
         file_pos = self._fh.tell()
-        file_mode = self._fh.mode
+        # Opening the file again must neither create nor truncate it
+        file_mode = 'rb+' if '+' in self._fh.mode else 'rb'
 
         _ = self.max_num_trace_samples()
 
-- 
2.43.0


From d457b60732e55dad4b80fd24b7a4d9b004566462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 37/44] fix: a header format has the fields of all of its base
 formats

---
 segpy/header.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index ab510c4..dcfe669 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -3,7 +3,7 @@ from weakref import WeakKeyDictionary
 from itertools import chain
 
 from segpy import __version__
-from segpy.util import underscores_to_camelcase, super_class, collect_attributes
+from segpy.util import underscores_to_camelcase, collect_attributes
 
 
 class BaseHeader:
@@ -48,9 +48,8 @@ class BaseHeader:
             An tuple containing the field names in order.
         """
 
-        if cls is BaseHeader:
-            return cls._ordered_field_names
-        return super_class(cls).ordered_field_names() + cls._ordered_field_names
+        # All of the base classes contribute, there may be several
+        return tuple(chain.from_iterable(vars(base).get('_ordered_field_names', ()) for base in reversed(cls.__mro__)))
 
     def copy(self, **updates):
         fields = {name: getattr(self, name) for name in self.ordered_field_names()}
-- 
2.43.0


From 6640ab629b920a74fb093d2d08c091df8bf59477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 38/44] fix: the command line reports an unusable log level by
 its exit status

---
 segpy/__main__.py | 4 +++-
 segpy/cli.py      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/segpy/__main__.py b/segpy/__main__.py
index fe1517d..e91ab35 100644
--- a/segpy/__main__.py
+++ b/segpy/__main__.py
@@ -1,3 +1,5 @@
+import sys
+
 from segpy import cli
 
-cli.main()
+sys.exit(cli.main())
diff --git a/segpy/cli.py b/segpy/cli.py
index e337904..87b1b89 100644
--- a/segpy/cli.py
+++ b/segpy/cli.py
@@ -106,7 +106,7 @@ def report(args):
 def main(argv=None):
     if argv is None:
         argv = sys.argv[1:]
-    commands(argv)
+    return commands(argv)
 
 
 __doc__ = commands.top_level_doc
-- 
2.43.0


From 4f028ec1fca051f505b91ee3e7dadfd76d2500a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 39/44] fix: catalogs can be built of keys and values which are
 not integers

---
 segpy/catalog.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/segpy/catalog.py b/segpy/catalog.py
index fbf1a87..f021da6 100644
--- a/segpy/catalog.py
+++ b/segpy/catalog.py
@@ -17,6 +17,7 @@ else:
 
 from fractions import Fraction
 from itertools import product
+from numbers import Integral
 
 from segpy.sorted_frozen_set import SortedFrozenSet
 from segpy.util import (contains_duplicates, measure_stride, make_sorted_distinct_sequence,
@@ -106,12 +107,17 @@ class CatalogBuilder(object):
 
         index_min = self._catalog[0][0]
         index_max = self._catalog[-1][0]
-        index_stride = measure_stride(index for index, value in self._catalog)
+        # Only integers are compressed
+        index_stride = (measure_stride(index for index, value in self._catalog)
+                        if all(isinstance(index, Integral) for index, value in self._catalog)
+                        else None)
         assert index_stride != 0
 
         value_start = self._catalog[0][1]
         value_stop = self._catalog[-1][1]
-        value_stride = measure_stride(value for index, value in self._catalog)
+        value_stride = (measure_stride(value for index, value in self._catalog)
+                        if all(isinstance(value, Integral) for index, value in self._catalog)
+                        else None)
 
         if index_stride is not None and value_stride == 0:
             assert value_start == value_stop
@@ -180,6 +186,9 @@ class CatalogBuilder(object):
             # The do not match so use a dictionary-based mapping
             return None
         vs = [v for (_, _), v in self._catalog]
+        if not all(isinstance(v, Integral) for v in vs):
+            # Only integers are compressed, so use a dictionary-based mapping
+            return None
         # Are the values unique and in ascending or descending order?
         if not (is_sorted(vs, reverse=False, distinct=True) or is_sorted(vs, reverse=True, distinct=True)):
             # The values are not both unique and sorted, so use a dictionary-based mapping
-- 
2.43.0


From 942197c35e11d5353220b4638e33817c87995e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:14 +0000
Subject: [PATCH 40/44] fix: field types can be derived from field types

---
 segpy/field_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/field_types.py b/segpy/field_types.py
index ba36635..c219ab3 100644
--- a/segpy/field_types.py
+++ b/segpy/field_types.py
@@ -7,7 +7,7 @@ class IntFieldMeta(type):
     """
 
     def class_new(cls, *args, **kwargs):
-        instance = super(cls, cls).__new__(cls, *args, **kwargs)
+        instance = int.__new__(cls, *args, **kwargs)
         if not (cls.MINIMUM <= instance <= cls.MAXIMUM):
             raise ValueError("{} value {!r} outside range {} to {}".format(
                 cls.__name__, instance,
@@ -78,7 +78,7 @@ class IntEnumFieldMeta(IntFieldMeta):
     """
 
     def class_new(cls, *args, **kwargs):
-        instance = super(cls, cls).__new__(cls, *args, **kwargs)
+        instance = int.__new__(cls, *args, **kwargs)
         return cls.ENUM(instance)
 
     def __new__(cls, name, bases, namespace, enum, seg_y_type='int16', **kwargs):
-- 
2.43.0


From b4522c0e6166271348ed831fb9c6f0d4c71e7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 41/44] fix: IBMFloats can be copied and pickled

---
 segpy/ibm_float.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 91a30e0..61e05fd 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -232,6 +232,9 @@ class IBMFloat(Real):
     def __bytes__(self):
         return self._data
 
+    def __reduce__(self):
+        return type(self), (self._data,)
+
     def __repr__(self):
         return "{}(bytes([{}])) ≈ {!r}".format(
             self.__class__.__name__,
-- 
2.43.0


From 0f48d553ad9de58f2464675c02628ba16e8d4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 42/44] fix: IBMFloats can be hashed

---
 segpy/ibm_float.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 61e05fd..ac34e21 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -331,6 +331,10 @@ class IBMFloat(Real):
 
         return lhs.as_integer_ratio() == rhs.as_integer_ratio()
 
+    def __hash__(self):
+        # Numbers which are equal have equal hashes, whatever their type, and every IBM float is exactly a float
+        return hash(float(self))
+
     @property
     def exp16(self):
         """The base 16 exponent."""
-- 
2.43.0


From f33d272c2f132fbbe2642d51c1baf616baaa476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:57 +0000
Subject: [PATCH 43/44] fix: SortedFrozenSets can be hashed as frozensets can

---
 segpy/sorted_frozen_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/sorted_frozen_set.py b/segpy/sorted_frozen_set.py
index 0d3f89b..8a57124 100644
--- a/segpy/sorted_frozen_set.py
+++ b/segpy/sorted_frozen_set.py
@@ -38,6 +38,9 @@ class SortedFrozenSet(Sequence, Set):
             return False
         return self._items == rhs._items
 
+    def __hash__(self):
+        return self._hash()
+
     def index(self, item):
         # TODO: Add support for start and stop
         index = bisect_left(self._items, item)
-- 
2.43.0


From 544643cc70f5ab27a17283272592c668dda7ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 44/44] Revert "fix: the numpy example programs write the
 arrays they extract"

This reverts commit 32c97a22d4c16e2b20a23e8e464a5a72a106cdd2.
---
 .../segpy_numpy/examples/extract_inline.py     | 18 +++++++++++-------
 .../examples/extract_trace_header_field.py     | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/segpy-ext/segpy_numpy/examples/extract_inline.py b/segpy-ext/segpy_numpy/examples/extract_inline.py
index b2aa61c..c0a5adb 100644
--- a/segpy-ext/segpy_numpy/examples/extract_inline.py
+++ b/segpy-ext/segpy_numpy/examples/extract_inline.py
@@ -43,7 +43,7 @@ class DimensionalityError(Exception):
     pass
 
 
-def extract_inline(segy_filename, out_filename, inline_number, null=0):
+def extract_inline(segy_filename, inline_number, null=None):
     """Extract a timeslice from a 3D SEG Y file to a Numpy NPY file.
 
     Args:
@@ -51,7 +51,7 @@ def extract_inline(segy_filename, out_filename, inline_number, null=0):
 
         out_filename: Filename of the NPY file.
 
-        inline_number: The number of the inline to be extracted.
+        inline_index: The zero-based index (increasing with depth) of the slice to be extracted.
 
         null: Optional sample value to use for missing or short traces. Defaults to zero.
     """
@@ -59,7 +59,11 @@ def extract_inline(segy_filename, out_filename, inline_number, null=0):
 
         segy_reader = create_reader(segy_file)
         inline_array = extract_inline_3d(segy_reader, inline_number, null=null)
-        np.save(out_filename, inline_array)
+        return inline_array
+
+
+def nullable_float(s):
+    return None if not bool(s) else float(s)
 
 
 def main(argv=None):
@@ -71,9 +75,9 @@ def main(argv=None):
                         help="Path to the Numpy array file to be created for the timeslice")
 
     parser.add_argument("inline_number", metavar="inline-number", type=int,
-                        help="Number of the inline to be extracted", )
+                        help="Zero based index of the inline to be extracted", )
 
-    parser.add_argument("--null",  type=float, default=0.0,
+    parser.add_argument("--null",  type=nullable_float, default="",
                         help="Sample value to use for missing or short traces.")
 
     if argv is None:
@@ -82,11 +86,11 @@ def main(argv=None):
     args = parser.parse_args(argv)
 
     try:
-        extract_inline(
+        inline_array = extract_inline(
             segy_filename=args.segy_file,
-            out_filename=args.npy_file,
             inline_number=args.inline_number,
             null=args.null)
+        inline_array.tofile(args.npy_file)
     except (FileNotFoundError, IsADirectoryError) as e:
         print(e, file=sys.stderr)
         return os.EX_NOINPUT
diff --git a/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py b/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
index 2bce41d..2e23f7a 100644
--- a/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
+++ b/segpy-ext/segpy_numpy/examples/extract_trace_header_field.py
@@ -45,7 +45,7 @@ class DimensionalityError(Exception):
 
 
 
-def extract_header_field(segy_filename, out_filename, field_name, null=0):
+def extract_header_field(segy_filename, out_filename, field_name, null=None):
     """Extract a timeslice from a 3D SEG Y file to a Numpy NPY file.
 
     Args:
@@ -53,9 +53,9 @@ def extract_header_field(segy_filename, out_filename, field_name, null=0):
 
         out_filename: Filename of the NPY file.
 
-        field_name: The name of the trace header field to be extracted.
+        inline_index: The zero-based index (increasing with depth) of the slice to be extracted.
 
-        null: Optional header value to use for missing traces. Defaults to zero.
+        null: Optional sample value to use for missing or short traces. Defaults to zero.
     """
     header_field = getattr(TraceHeaderRev1, field_name)
 
@@ -63,8 +63,12 @@ def extract_header_field(segy_filename, out_filename, field_name, null=0):
 
         segy_reader = create_reader(segy_file)
 
-        header_field_arrays = extract_trace_header_field_3d(segy_reader, [header_field], null=null)
-        np.save(out_filename, getattr(header_field_arrays, field_name))
+        header_field_arrays = extract_trace_header_field_3d(segy_reader, [header_field], null)
+        return header_field_arrays
+
+
+def nullable_int(s):
+    return None if not bool(s) else int(s)
 
 
 def main(argv=None):
@@ -78,8 +82,8 @@ def main(argv=None):
     parser.add_argument("field_name", metavar="field-name", type=str,
                         help="Name of the trace header field to be extracted", )
 
-    parser.add_argument("--null",  type=int, default=0,
-                        help="Header value to use for missing traces.")
+    parser.add_argument("--null",  type=nullable_int, default="",
+                        help="Header value to use for missing or short traces.")
 
     if argv is None:
         argv = sys.argv[1:]
-- 
2.43.0

