From 1817732269a4e6acee81a9241f82a4f91b0c4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 01/84] fix: intersect window and abs_window and honour a zero
 end bound

The end of the intersection of two windows is the earlier of their ends,
not the later one, and an end bound of 0 is a bound, not an open window.
---
 trappy/ftrace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..2187bc1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From 8a791282691acc2c2801cec56d7b57fa924f9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 02/84] fix: remove an empty array at the end of a trace line
 too

The field was only dropped when followed by a blank, otherwise it showed
up as a column holding the text '{}'.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2187bc1..6f04235 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -437,7 +437,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From 1e2e356d11bd01dc958019e5b7063870c7559b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 03/84] fix: explode arrays even if the first line of an event
 has none

The scan for arrays gave up after the first line, leaving the arrays of
the following lines unexploded.
---
 trappy/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..ecf6e90 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -157,10 +157,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From 4534e6024e3a40ccb91c340d11af86ecd036bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 04/84] fix: open the trace when its cache metadata is damaged

A metadata.json that was missing, truncated or written by another kind of
trace, or a cache path that is not a directory, made the constructor raise
instead of parsing the trace.
---
 trappy/ftrace.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 6f04235..e81d827 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -209,8 +209,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         return metadata
 
+    # Keys without which the cache metadata can't be used
+    _cache_metadata_keys = ["md5sum", "basetime", "endtime"]
+
     def _is_cache_valid(self, cache_metadata):
-        for key in ["md5sum", "basetime", "endtime"]:
+        for key in self._cache_metadata_keys:
             if key not in cache_metadata.keys():
                 warnstr = "Cache metadata is erroneous, invalidating cache"
                 warnings.warn(warnstr)
@@ -276,10 +279,16 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        try:
+            metadata = self._get_cache_metadata()
+        except (OSError, ValueError) as err:
+            # Writing the cache was interrupted, or it was damaged afterwards
+            warnings.warn(
+                "TRAPpy: Couldn't read the cache metadata: {0}".format(err))
+            metadata = {}
 
         if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+            shutil.rmtree(cache_path, ignore_errors=True)
             return
 
         # Load metadata
@@ -824,6 +833,8 @@ class FTrace(GenericFTrace):
         if self.read_from_dat:
             os.remove(self.file_to_parse)
 
+    _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ["ftrace"]
+
     def _load_metadata_from_cache(self, metadata):
         super(FTrace, self)._load_metadata_from_cache(metadata)
 
-- 
2.43.0


From 9b50a28827fe4c4ca098fae87a39aee4c8ee4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 05/84] fix: do not load cached tables that are not what was
 written

A table cut short while the cache was being written, or damaged later, was
taken for the complete table of the event. Remember the checksum of every
table in the metadata, which is written after them.
---
 trappy/ftrace.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index e81d827..3a271f4 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -241,14 +241,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             # Recreate basic cache directories only if nothing cached
             if not any([c.cached for c in self.trace_classes]):
                 self._prepare_cache_dir()
-
-                # Write cache metadata
-                metadata_path = os.path.join(self._trace_cache_path(), 'metadata.json')
-
-                metadata = self._get_metadata_to_cache()
-
-                with open(metadata_path, 'w') as f:
-                    json.dump(metadata, f)
+                tables = {}
+            else:
+                tables = self._get_cache_metadata().get("tables", {})
 
             # Cache trace data
             for trace_class in self.trace_classes:
@@ -258,10 +253,27 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                 csv_file = self._get_csv_path(trace_class)
                 trace_class.write_csv(csv_file)
+                tables[os.path.basename(csv_file)] = \
+                    self._describe_table(trace_class, csv_file)
+
+            # Write the cache metadata last: until then nothing vouches for
+            # the tables just written.
+            metadata = self._get_metadata_to_cache()
+            metadata["tables"] = tables
+
+            metadata_path = os.path.join(self._trace_cache_path(), 'metadata.json')
+            with open(metadata_path, 'w') as f:
+                json.dump(metadata, f)
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
 
+    def _describe_table(self, trace_class, csv_file):
+        """Describe the cached table of an event, to recognise whether it can
+        be used when the cache is loaded"""
+        with open(csv_file, 'rb') as f:
+            return {"md5sum": hashlib.md5(f.read()).hexdigest()}
+
     def _get_metadata_to_cache(self):
         # By default, some amount of metadata is saved in metadata.json
         # Additionnal metadata can be saved by overriding this method
@@ -296,9 +308,13 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         self.max_window = self._calc_max_window()
 
         # Load trace data
+        tables = metadata.get("tables", {})
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
+                if tables[os.path.basename(csv_file)] != \
+                   self._describe_table(trace_class, csv_file):
+                    raise ValueError("{} is not what was cached".format(csv_file))
                 trace_class.read_csv(csv_file)
                 trace_class.cached = True
             except:
-- 
2.43.0


From 3df39f1ce1b0c41402ca6e02bcb9c3f6e30f446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 06/84] fix: load from the cache the very values that were
 parsed

The cache turned strings of digits into integers, strings such as NA and the
empty string into missing values, and whole columns into strings if any of
their values was one, and lost digits of floats.
---
 trappy/base.py   | 62 ++++++++++++++++++++++++++++++++++++++++++++++++
 trappy/ftrace.py | 14 ++++++-----
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index ecf6e90..6654300 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -23,6 +23,7 @@ from builtins import range
 from builtins import object
 from past.builtins import basestring
 import re
+import json
 import pandas as pd
 import warnings
 
@@ -329,6 +330,67 @@ class Base(object):
         )
         self.optimize_dataframe()
 
+    def write_cache(self, fname):
+        """Write the data into the trace cache
+
+        A CSV doesn't tell apart an integer from a string of digits or an empty
+        string from a missing value, so cells of columns that hold objects are
+        written as JSON.
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :return: A description of the columns, to be given to
+            :meth:`read_cache`
+        """
+        def encode(value):
+            return json.dumps(value, default=lambda obj: obj.item())
+
+        dfr = self.data_frame.copy()
+        columns = [[name, str(dtype)] for name, dtype in dfr.dtypes.items()]
+        dfr.columns = range(len(columns))
+        for idx, (_, dtype) in enumerate(columns):
+            if dtype == "object":
+                dfr[idx] = dfr[idx].map(encode)
+        dfr.to_csv(fname, header=[name for name, _ in columns])
+
+        return columns
+
+    def read_cache(self, fname, columns):
+        """Read data written with :meth:`write_cache`
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param columns: What :meth:`write_cache` returned
+        """
+        if not columns:
+            self.data_frame = pd.DataFrame()
+            return
+
+        # The conversion of timestamps is python's float(), as it is when they
+        # are parsed, and not numpy's
+        converters = {0: float}
+        dtypes = {}
+        for idx, (_, dtype) in enumerate(columns, 1):
+            if dtype == "object":
+                converters[idx] = json.loads
+            else:
+                dtypes[idx] = dtype
+
+        self.data_frame = pd.read_csv(
+            fname,
+            header=0,
+            names=range(len(columns) + 1),
+            index_col=0,
+            converters=converters,
+            dtype=dtypes,
+            float_precision="round_trip",
+        )
+        self.data_frame.columns = [name for name, _ in columns]
+        self.data_frame.index.name = "Time"
+        self.optimize_dataframe()
+
     def normalize_time(self, basetime):
         """Substract basetime from the Time of the data frame
 
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 3a271f4..c5b345a 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -252,9 +252,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
-                tables[os.path.basename(csv_file)] = \
-                    self._describe_table(trace_class, csv_file)
+                columns = trace_class.write_cache(csv_file)
+                tables[os.path.basename(csv_file)] = dict(
+                    self._describe_table(trace_class, csv_file),
+                    columns=columns)
 
             # Write the cache metadata last: until then nothing vouches for
             # the tables just written.
@@ -312,10 +313,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                if tables[os.path.basename(csv_file)] != \
-                   self._describe_table(trace_class, csv_file):
+                table = tables[os.path.basename(csv_file)]
+                columns = table.pop("columns")
+                if table != self._describe_table(trace_class, csv_file):
                     raise ValueError("{} is not what was cached".format(csv_file))
-                trace_class.read_csv(csv_file)
+                trace_class.read_cache(csv_file, columns)
                 trace_class.cached = True
             except:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
-- 
2.43.0


From 5117f45d8cc51cf381735df79ddd7519c27cf52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 07/84] fix: only load cached tables this trace would parse the
 same way

Tables were cached by the name of the parser's class alone, so that they were
loaded for another parser of the same name, for another kind of trace and for
selections of events in which some lines belong to other events. While
parsing the rest, lines of a cached event went to other events.
---
 trappy/ftrace.py | 57 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c5b345a..2cb3450 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -210,7 +210,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         return metadata
 
     # Keys without which the cache metadata can't be used
-    _cache_metadata_keys = ["md5sum", "basetime", "endtime"]
+    _cache_metadata_keys = ["md5sum", "basetime", "endtime", "trace_class"]
 
     def _is_cache_valid(self, cache_metadata):
         for key in self._cache_metadata_keys:
@@ -219,6 +219,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnings.warn(warnstr)
                 return False
 
+        if cache_metadata["trace_class"] != self.__class__.__name__:
+            warnings.warn("Cached data is from another kind of trace, invalidating cache.")
+            return False
+
         with open(self.trace_path, 'rb') as f:
             trace_md5sum = hashlib.md5(f.read()).hexdigest()
 
@@ -255,7 +259,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 columns = trace_class.write_cache(csv_file)
                 tables[os.path.basename(csv_file)] = dict(
                     self._describe_table(trace_class, csv_file),
-                    columns=columns)
+                    columns=columns,
+                    words=self._selected_words(),
+                    contended=trace_class.unique_word in self._contended_words)
 
             # Write the cache metadata last: until then nothing vouches for
             # the tables just written.
@@ -273,13 +279,31 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         """Describe the cached table of an event, to recognise whether it can
         be used when the cache is loaded"""
         with open(csv_file, 'rb') as f:
-            return {"md5sum": hashlib.md5(f.read()).hexdigest()}
+            return {"md5sum": hashlib.md5(f.read()).hexdigest(),
+                    "unique_word": trace_class.unique_word}
+
+    def _selected_words(self):
+        return [cls.unique_word for cls in self.class_definitions.values()]
+
+    def _is_same_table(self, words, contended):
+        """Return True if an event that was cached by a trace which selected
+        the given unique words has the same rows in this one
+
+        Lines in which several of them occur may belong to other events if
+        other words are selected.
+
+        """
+        selected = self._selected_words()
+        if contended:
+            return words == selected
+        return set(selected).issubset(words)
 
     def _get_metadata_to_cache(self):
         # By default, some amount of metadata is saved in metadata.json
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
+        metadata["trace_class"] = self.__class__.__name__
         metadata["md5sum"] = hashlib.md5(
             open(self.trace_path, 'rb').read()
         ).hexdigest()
@@ -315,7 +339,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 csv_file = self._get_csv_path(trace_class)
                 table = tables[os.path.basename(csv_file)]
                 columns = table.pop("columns")
-                if table != self._describe_table(trace_class, csv_file):
+                if not self._is_same_table(table.pop("words"),
+                                           table.pop("contended")) or \
+                   table != self._describe_table(trace_class, csv_file):
                     raise ValueError("{} is not what was cached".format(csv_file))
                 trace_class.read_cache(csv_file, columns)
                 trace_class.cached = True
@@ -405,11 +431,13 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def __get_trace_class(self, line, cls_word):
         trace_class = None
-        for unique_word, cls in cls_word.items():
-            if unique_word in line:
-                trace_class = cls
-                if not cls.fallback:
-                    return trace_class
+        found = [word for word in cls_word if word in line]
+        if len(found) > 1:
+            self._contended_words.update(found)
+        for unique_word in found:
+            trace_class = cls_word[unique_word]
+            if not trace_class.fallback:
+                return trace_class
         return trace_class
 
     def __populate_data(self, fin, cls_for_unique_word):
@@ -459,7 +487,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # Now that we know the basetime, we can derive max_window
                     self.max_window = self._calc_max_window()
 
-                if trace_class:
+                if trace_class and not trace_class.cached:
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
@@ -506,13 +534,14 @@ is part of the trace.
     def __parse_trace_file(self, trace_file):
         """parse the trace and create a pandas DataFrame"""
 
-        # Memoize the unique words to speed up parsing the trace file
+        # Unique words that were found in the same line as another one
+        self._contended_words = set()
+
+        # Memoize the unique words to speed up parsing the trace file. Cached
+        # events are there too: their lines don't belong to another event.
         cls_for_unique_word = {}
         for trace_name in self.class_definitions.keys():
             trace_class = getattr(self, trace_name)
-            if trace_class.cached:
-                continue
-
             unique_word = trace_class.unique_word
             if unique_word in cls_for_unique_word:
                 # This means TRAPpy has a nasty bug, like the one fixed in
-- 
2.43.0


From bdb1ed9ec2716a1967936bae00dbcf2c2f791ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 08/84] fix: parse a trace without events even if there is no
 cache

With caching enabled, a trace that selects no event was never parsed and was
left without basetime, endtime and metadata.
---
 trappy/ftrace.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2cb3450..3e8b3f5 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -312,9 +312,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         return metadata
 
     def _load_cache(self):
+        """Load what is usable of the cache. Return False if there's nothing"""
         cache_path = self._trace_cache_path()
         if not os.path.exists(cache_path):
-            return
+            return False
 
         try:
             metadata = self._get_cache_metadata()
@@ -326,7 +327,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         if not self._is_cache_valid(metadata):
             shutil.rmtree(cache_path, ignore_errors=True)
-            return
+            return False
 
         # Load metadata
         self._load_metadata_from_cache(metadata)
@@ -349,6 +350,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
                 warnings.warn(warnstr)
 
+        return True
+
     def _load_metadata_from_cache(self, metadata):
         # By default, some amount of metadata is loaded from metadata.json
         # Additionnal metadata can be loaded by overriding this method,
@@ -367,10 +370,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _do_parse(self):
         if not self.__class__.disable_cache:
-            self._load_cache()
+            loaded = self._load_cache()
 
             # Check if cache data is enough
-            if all([c.cached for c in self.trace_classes]):
+            if loaded and all([c.cached for c in self.trace_classes]):
                 self._apply_user_parameters()
                 return
 
-- 
2.43.0


From 614ff7e38e973dfc018073d6a968e7b2faa88491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 09/84] fix: set the metadata attributes of cached traces as
 for parsed ones

_version and _cpus did not exist, instead of being None, if the trace had no
such header and was loaded from the cache.
---
 trappy/ftrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 3e8b3f5..effd2c6 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -988,9 +988,6 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        for key in metadata_keys:
-            setattr(self, "_" + key, None)
-
         with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
             for line in fin:
                 if not metadata_keys:
@@ -1012,5 +1009,8 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
+        for key in ["version", "cpus"]:
+            setattr(self, "_" + key, None)
+
         for key, value in metadata.items():
             setattr(self, "_" + key, value)
-- 
2.43.0


From 110bab822bcaa9a5145f8809584654924b957afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 10/84] fix: open systraces that have no sched_switch

The table of an event that does not happen has no columns, so counting the
CPUs raised KeyError.
---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..e91f87f 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # sched_switch was not selected, or does not happen in the trace
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From 48974f27e9d64c30b326946fc3d760e33966792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 11/84] fix: keep the text of userspace markers that are not
 systrace events

Text that merely starts with a capital letter was taken for a systrace event
of that letter and the rest of it was dropped, as was the pid of the markers
that have nothing after it.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index e91f87f..503d7a9 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 97368cff3707ef25ef7d09d2684fb06a6f622667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 12/84] fix: ask trace-cmd for raw output of the event, not of
 its parser

The name of a parser that is registered with register_dynamic_ftrace() derives
from the class name, which trace-cmd knows nothing about.
---
 trappy/ftrace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index effd2c6..b0db5ee 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -979,7 +979,9 @@ class FTrace(GenericFTrace):
             for trace_class in event_class.values():
                 raw = getattr(trace_class, 'parse_raw', None)
                 if raw:
-                    name = getattr(trace_class, 'name', None)
+                    # What the event is called in the trace, which needn't be
+                    # the name of the parser
+                    name = trace_class.unique_word.split(":")[0]
                     if name:
                         self.raw_events.append(name)
 
-- 
2.43.0


From ea267fe44f8c21ffc97a53a5c94f8675d5ecab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 13/84] fix: remove the temporary trace if trace-cmd or parsing
 fails

The file generated from a trace.dat was left behind when trace-cmd failed or
the trace couldn't be parsed.
---
 trappy/ftrace.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index b0db5ee..8d5ac09 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -379,16 +379,17 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         self._parsing_setup()
 
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
-
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+        try:
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -959,15 +960,15 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and not exc.filename:
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
+        with NamedTemporaryFile(delete=False) as fout:
             fout.write(output.stdout)
 
         return fout.name
-- 
2.43.0


From 8f70533c6bdd138f37ad5a24b7a50e3e324512c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 14/84] fix: remove the temporary trace if its header can't be
 read

---
 trappy/ftrace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 8d5ac09..241c7bc 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -875,7 +875,11 @@ class FTrace(GenericFTrace):
         # file_to_parse is already set to trace_path in the superclass,
         # so no "else" is needed here
 
-        self.__populate_trace_metadata(self.__get_trace_metadata())
+        try:
+            self.__populate_trace_metadata(self.__get_trace_metadata())
+        except Exception:
+            self._parsing_teardown()
+            raise
 
     def _parsing_teardown(self):
         super(FTrace, self)._parsing_teardown()
-- 
2.43.0


From 1598cdc554171a2d9498a753e75c6f1294f18893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 15/84] fix: spread duplicate times evenly, in a copy of the
 data

---
 trappy/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..58c8380 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,12 +78,16 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
-
     dups = index[index.duplicated()].unique()
+    if not len(dups):
+        return data.copy()
+
+    # The data (and the objects it shares the index with) is the caller's:
+    # don't touch it.
+    new_index = index.values.astype(float)
 
     for dup in dups:
         # Leave one of the values intact
@@ -103,10 +109,7 @@ def handle_duplicate_index(data,
             delta = max_delta
 
         # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        for i in range(1, num_dups):
+            new_index[dup_index_left + i] += i * delta
 
-    return data.reindex(new_index)
+    return data.set_axis(pd.Index(new_index, name=index.name))
-- 
2.43.0


From 5916b1bef537fdd7f2900f3682446aa747ca1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 16/84] fix: trigger with the value of the column it was given

---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From f32cb887d333b02de254145199b5587e9e7e609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 17/84] fix: trigger on any of the values listed in a filter

---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 7fff655a445241d92e3c9cdc234352bd80de31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 18/84] fix: let triggers on events without rows generate
 nothing

---
 trappy/stats/Trigger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 22bd71f..9904926 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -92,6 +92,10 @@ class Trigger(object):
 
         trappy_event = getattr(self.trace, self.template.name)
         data_frame = trappy_event.data_frame
+        if data_frame.empty:
+            # Nothing can trigger, there may not even be a pivot column
+            return pd.Series(dtype=float, index=data_frame.index)
+
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
         mask = [True for _ in range(len(data_frame))]
-- 
2.43.0


From 982545236735d3fb8fde6ac8d243d6b45800a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 19/84] fix: don't alter the base series when aggregating them

---
 trappy/stats/Aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..46c992f 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,8 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                # Don't add in place: this may be the memoized base series
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From 4ac0004890f911421eceaa085a0a2ec2fca83733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 20/84] fix: accept a singular trigger in
 MultiTriggerAggregator as documented

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 46c992f..815e43b 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From ef16ac80a0ab47a8e1a23135cb73c71fff1c101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 21/84] fix: generate an empty series for pivot values that
 don't occur

---
 trappy/stats/Trigger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 9904926..152ac2d 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -98,7 +97,7 @@ class Trigger(object):
 
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index, dtype=bool)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-- 
2.43.0


From 23416f10b54ee614abbd9abe3fb1542ecfe95286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 22/84] fix: don't hand out the base series of the aggregator

---
 trappy/stats/Aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 815e43b..fb915db 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -143,7 +143,8 @@ class MultiTriggerAggregator(AbstractAggregator):
             if self._aggfunc is not None:
                 level_res = self._aggfunc(self._result[group[0]], **kwargs)
             else:
-                level_res = self._result[group[0]]
+                # The caller gets a series of its own
+                level_res = self._result[group[0]].copy()
 
             for node in group[1:]:
                 if self._aggfunc is not None:
-- 
2.43.0


From 3b4d394baf38891d54dfaec32a15846369c95206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 23/84] fix: don't take missing data for activity when
 correlating

---
 trappy/stats/Correlator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..f419882 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -91,7 +91,8 @@ class Correlator(object):
 
             series_x, series_y = shift_series(series_x, series_y, self._shift)
             corr_output.append(self._correlate(series_x, series_y))
-            weights.append(len(series_x[series_x != 0]) + len(series_y[series_y != 0]))
+            weights.append(np.count_nonzero(series_x.fillna(0)) +
+                           np.count_nonzero(series_y.fillna(0)))
 
         total = 0
         for weight, corr in zip(weights, corr_output):
@@ -195,8 +196,9 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    # There's no data where the series are NaN
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From e0b87d3863ebcb3c7945a756cbd18d9ae730b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 24/84] fix: honour the pivot of parsed events added to a trace

---
 trappy/bare_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 36a8bc2..9625867 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -132,7 +132,7 @@ class BareTrace(object):
         self.trace_classes.append(event)
         event.data_frame = dfr
         if pivot:
-            event.pivot = pivot
+            trace_class.pivot = pivot
 
         setattr(self, name, event)
 
-- 
2.43.0


From 97fe44dda6904c367f42d1f7cff51e6f190bba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 25/84] fix: call functions without arguments in expressions

---
 trappy/stats/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..bdeb37b 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -526,7 +526,8 @@ class Parser(object):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From f1260f6ed05844e05002f88c62d1d5ff2695b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 26/84] fix: forward any callable to expressions, not only
 functions

---
 trappy/stats/grammar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index bdeb37b..432de23 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -520,9 +519,7 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if func_name in self._pvars and callable(self._pvars[func_name]):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-- 
2.43.0


From 3583b6fb150884484057ae9510b5b60eec8d7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 27/84] fix: accept a signed exponent however it is written

---
 trappy/stats/grammar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 432de23..46d83e7 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -60,8 +60,8 @@ REAL = Combine(Optional(oneOf("+ -")) + Word(nums) + "." +
 IDENTIFIER = Word(alphas + '_', alphanums + '_')
 # Python Like Function Name
 FUNC_NAME = delimitedList(IDENTIFIER, delim=".", combine=True)
-# Exponentiation operators
-EXPONENTIATION_OPS = "**"
+# Exponentiation operators (the exponent can have a sign)
+EXPONENTIATION_OPS = Combine(Literal("**") + Optional(oneOf("+ -")), adjacent=False)
 # Unary Operators
 UNARY_OPS = oneOf("+ -")
 # Multiplication/Division Operators
@@ -82,6 +82,8 @@ OPERATOR_MAP = {
     "//": lambda a, b: a // b,
     "%": lambda a, b: a % b,
     "**": lambda a, b: a ** b,
+    "**+": lambda a, b: a ** b,
+    "**-": lambda a, b: a ** (-1 * b),
     ">": lambda a, b: a > b,
     "<": lambda a, b: a < b,
     ">=": lambda a, b: a >= b,
-- 
2.43.0


From ea614ead0408b1553edafbca3d8ec4a63ed56ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 28/84] fix: keep super-indexed data in time order, so that
 padding is right

---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 46d83e7..30ce5b8 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -468,7 +468,7 @@ class Parser(object):
 
         data_frame = self._pivot(cls, column)
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1).sort_index()
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
-- 
2.43.0


From 8d0c6c40e573b4d1357fc0250660e9546d7ebc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 29/84] fix: tell columns of the same name of different events
 apart in expressions

---
 trappy/stats/grammar.py | 58 +++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 30ce5b8..4e705c0 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -22,7 +22,8 @@ from __future__ import division
 from __future__ import unicode_literals
 from builtins import object
 from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
-    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
+    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group, \
+    ParseResults
 import importlib
 import pandas as pd
 import numpy as np
@@ -346,6 +347,7 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        self._accessed = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -448,32 +450,36 @@ class Parser(object):
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
 
-        params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
+        event, column = tokens[0]
+        cls = self._get_class(event)
 
-        event = params[0]
-        column = params[1]
+        # Several events can have a column of that name
+        if (cls, column) not in self._accessed:
+            data_frame = self._pivot(cls, column)
+            start = len(self._agg_df.columns)
+            self._agg_df = pd.concat(
+                [self._agg_df, data_frame], axis=1).sort_index()
+            self._accessed[cls, column] = slice(
+                start, len(self._agg_df.columns))
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+            if self._fill:
+                self._agg_df = self._agg_df.fillna(method="pad")
 
-        data_frame = self._pivot(cls, column)
-        self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1).sort_index()
+        return self._agg_df.iloc[:, self._accessed[cls, column]][column]
 
-        if self._fill:
-            self._agg_df = self._agg_df.fillna(method="pad")
+    def _get_class(self, event):
+        """Get the parser class of an event in an accessor"""
 
-        return self._agg_df[params[1]]
+        if event in self._pvars:
+            return self._pvars[event]
+        elif event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+
+        try:
+            return str_to_attr(event)
+        except KeyError:
+            raise ValueError(
+                "Can't find parser class for event {}".format(event))
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -508,13 +514,13 @@ class Parser(object):
         """
 
         params = tokens[0]
+        if isinstance(params, ParseResults):
+            return self._pre_process(tokens)
+
         try:
             return float(params)
         except (ValueError, TypeError):
-            try:
-                return self._pvars[params]
-            except KeyError:
-                return self._agg_df[params[1]]
+            return self._pvars[params]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From 1738eab6c8f16436a21ff7bf7c63fcade7a4fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 30/84] fix: plot windows that reach beyond the data

---
 trappy/plotter/Constraint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..14fd481 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -109,9 +109,11 @@ class Constraint(object):
 
         if window:
             # We want to include the previous value before the window
-            # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            # and the next after the window in the dataset, if any
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From a912ba4cd6fc467342baa09502b566e9f261fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 31/84] fix: accept a single value in the filters of a plot

---
 trappy/plotter/Constraint.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 14fd481..7cf64b5 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -35,11 +35,20 @@ from builtins import map
 from builtins import str
 from builtins import range
 from builtins import object
+from past.builtins import basestring
 from trappy.plotter.Utils import decolonize, normalize_list
 from trappy.utils import listify
 from trappy.plotter import AttrConf
 
 
+def _accepted_values(filter_):
+    """Return the collection of values that a filter accepts, which can be
+    given as a single value"""
+    if isinstance(filter_, basestring) or not hasattr(filter_, "__contains__"):
+        return [filter_]
+    return filter_
+
+
 class Constraint(object):
 
     """
@@ -100,7 +109,8 @@ class Constraint(object):
     def __init__(self, trappy_trace, pivot, column, template, trace_index,
                  filters, window):
         self._trappy_trace = trappy_trace
-        self._filters = filters
+        self._filters = {key: _accepted_values(filter_)
+                         for key, filter_ in filters.items()}
         self._pivot = pivot
         self.column = column
         self._template = template
-- 
2.43.0


From 84d1342d876b71a6e2a29d09104d6527adfc3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 32/84] fix: permute traces with each column of its own
 template

---
 trappy/plotter/Constraint.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 7cf64b5..d0dda91 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -268,13 +268,15 @@ class ConstraintManager(object):
         self._constraints = []
 
         self._trace_expanded = False
-        self._expand()
         if zip_constraints:
+            self._expand([0, 1, 2])
             self._populate_zip_constraints()
         else:
+            # Each trace gets all the columns (of their templates)
+            self._expand([1, 2])
             self._populate_constraints()
 
-    def _expand(self):
+    def _expand(self, positions):
         """This is really important. We need to
         meet the following criteria for constraint
         expansion:
@@ -296,20 +298,23 @@ class ConstraintManager(object):
                    Len[columns] != 1
                    Len[templates] != 1
             )
+
+        :param positions: Which of the inputs (traces, columns and
+            templates) have to be of the same length
+        :type positions: list(int)
         """
-        min_len = min(self._lens)
-        max_pos_comp = [
-            i for i,
-            j in enumerate(
-                self._lens) if j != self._max_len]
+        lens = [self._lens[i] for i in positions]
+        max_len = max(lens)
+        min_len = min(lens)
+        max_pos_comp = [i for i in positions if self._lens[i] != max_len]
 
-        if self._max_len == 1 and min_len != 1:
+        if min(self._lens) == 0:
             raise RuntimeError("Essential Arg Missing")
 
-        if self._max_len > 1:
+        if max_len > 1:
 
             # Are they all equal?
-            if len(set(self._lens)) == 1:
+            if len(set(lens)) == 1:
                 return
 
             if min_len > 1:
@@ -318,7 +323,7 @@ class ConstraintManager(object):
             for val in max_pos_comp:
                 if val == 0:
                     self._trace_expanded = True
-                self._ip_vec[val] = normalize_list(self._max_len,
+                self._ip_vec[val] = normalize_list(max_len,
                                                    self._ip_vec[val])
 
     def _populate_constraints(self):
@@ -330,12 +335,11 @@ class ConstraintManager(object):
         creates one constraint for the first trace and first column, the
         next for the second trace and second column,...  This function
         creates a constraint for every combination of traces and columns
-        possible.
+        possible.  Each column is that of its template.
         """
 
         for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+            for col, template in zip(self._ip_vec[1], self._ip_vec[2]):
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0


From fde0a1d56c71a900d6e738d11394197b075fa464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 33/84] fix: sort pivot values that are fractions

---
 trappy/plotter/Constraint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index d0dda91..03a980d 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -35,6 +35,7 @@ from builtins import map
 from builtins import str
 from builtins import range
 from builtins import object
+from numbers import Number
 from past.builtins import basestring
 from trappy.plotter.Utils import decolonize, normalize_list
 from trappy.utils import listify
@@ -382,7 +383,9 @@ class ConstraintManager(object):
         traces = list(range(self._lens[0]))
 
         try:
-            sorted_plist = sorted(p_set, key=int)
+            # Don't truncate what is a number already
+            sorted_plist = sorted(
+                p_set, key=lambda x: x if isinstance(x, Number) else int(x))
         except (ValueError, TypeError):
             try:
                 sorted_plist = sorted(p_set, key=lambda x: int(x, 16))
-- 
2.43.0


From a8810b7ff7768068271b1a221b5765372a432aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 34/84] fix: sort pivot values of which only some are numbers

---
 trappy/plotter/Constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 03a980d..9b0efb4 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -390,7 +390,7 @@ class ConstraintManager(object):
             try:
                 sorted_plist = sorted(p_set, key=lambda x: int(x, 16))
             except (ValueError, TypeError):
-                sorted_plist = sorted(p_set)
+                sorted_plist = sorted(p_set, key=str)
 
         if permute:
             pivot_gen = ((trace_idx, pivot) for trace_idx in traces for pivot in sorted_plist)
-- 
2.43.0


From d3070227baf7645da05afe182055c916d94bf887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 35/84] fix: plot windows on events without rows

---
 trappy/plotter/Constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 9b0efb4..df0f267 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -118,7 +118,7 @@ class Constraint(object):
         self._dup_resolved = False
         self._data = self.populate_data_frame()
 
-        if window:
+        if window and len(self._data):
             # We want to include the previous value before the window
             # and the next after the window in the dataset, if any
             before = self._data.loc[:window[0]].index
-- 
2.43.0


From 37152cb078bdb442c7f1027e75c473d07252e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 36/84] fix: draw each series on its own axis, named right in
 the legend

---
 trappy/plotter/BarPlot.py    |  6 ++--
 trappy/plotter/LinePlot.py   |  2 +-
 trappy/plotter/StaticPlot.py | 63 ++++++++++++++++++++++++------------
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..54445a9 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -97,14 +97,14 @@ class BarPlot(StaticPlot):
 
         #Keep a list of the tops of bars to plot stacks
         #Start with a list of 0s to put the first bars at the bottom
-        value_list = [c.result[p].values for (c, p) in series_list]
+        value_list = [c.result[p].values for (_, c, p) in series_list]
         end_of_previous = [0] * max(len(x) for x in value_list)
 
-        for i, (constraint, pivot) in enumerate(series_list):
+        for position, (i, constraint, pivot) in enumerate(series_list):
             result = constraint.result
             bar_anchor = np.arange(len(result[pivot].values))
             if not stacked:
-                bar_anchor = bar_anchor + i * bar_width
+                bar_anchor = bar_anchor + position * bar_width
 
             line_2d_list = axis.bar(
                 bar_anchor,
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..3763b87 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,7 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for i, constraint, pivot in series_list:
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..4c0a963 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -209,14 +209,17 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         legend_labels = self._attr["_legend_labels"]
 
         if concat and pivot == AttrConf.PIVOT_VAL:
-            legend_labels[series_index] = self._attr["column"]
+            legend_labels[series_index] = str(constraint.column)
         elif concat:
             legend_labels[series_index] = "{0}: {1}".format(
                 self._attr["pivot"],
                 self._attr["map_label"].get(pivot, pivot)
             )
         elif permute:
-            legend_labels[series_index] = constraint._template.name + ":" + constraint.column
+            label = str(constraint.column)
+            if constraint._template:
+                label = constraint._template.name + ":" + label
+            legend_labels[series_index] = label
         else:
             legend_labels[series_index] = str(constraint)
 
@@ -237,18 +240,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         self._fig = self._layout.get_fig()
 
-        # Determine what constraint to plot and the corresponding pivot value
-        if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+        # What the entries of the legend stand for
+        if concat and self._attr["pivot"] != AttrConf.PIVOT:
+            legend_keys = pivot_vals
+        elif concat or permute:
+            legend_keys = [(c._template, c.column) for c in self.c_mgr]
         else:
-            legend_len = len_pivots if concat else len(self.c_mgr)
-            pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
+            legend_keys = list(self.c_mgr)
+        legend_len = len(legend_keys)
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -259,11 +258,31 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             self._cmap = ColorMap(legend_len)
 
-        # Group constraints/series with the axis they are to be plotted on
+        # Group constraints/series with the axis they are to be plotted on:
+        # that of their constraint, or of their pivot value (and trace)
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
-            figure_data[axis].append((constraint, pivot))
+        for i, constraint in enumerate(self.c_mgr):
+            for pivot in self.c_mgr.generate_pivots()[0]:
+                if pivot not in constraint.result:
+                    continue
+
+                if concat:
+                    axis_index = i
+                elif permute:
+                    axis_index = pivot_vals.index((constraint.trace_index, pivot))
+                else:
+                    axis_index = pivot_vals.index(pivot)
+
+                if concat and self._attr["pivot"] != AttrConf.PIVOT:
+                    series_index = legend_keys.index(pivot)
+                elif concat or permute:
+                    series_index = legend_keys.index(
+                        (constraint._template, constraint.column))
+                else:
+                    series_index = i
+
+                axis = self._layout.get_axis(axis_index)
+                figure_data[axis].append((series_index, constraint, pivot))
 
         # Plot each axis
         for axis, series_list in figure_data.items():
@@ -279,9 +298,13 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
             if self._attr["ylim"]:
                 axis.set_ylim(self._attr["ylim"])
 
-        # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        # Show legend (of what there is data for)
+        entries = [(handle, label)
+                   for handle, label in zip(self._attr["_legend_handles"],
+                                            self._attr["_legend_labels"])
+                   if handle is not None]
+        legend = self._fig.legend([handle for handle, _ in entries],
+                         [label for _, label in entries],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 5ad37275a9350f306424875bdcd3cd0b2c8beabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 37/84] fix: draw bars of series of different lengths

---
 trappy/plotter/BarPlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 54445a9..d8e3242 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -109,14 +109,15 @@ class BarPlot(StaticPlot):
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:len(bar_anchor)],
                 width=bar_width,
                 color=self._cmap.cmap(i),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                for j, value in enumerate(result[pivot].values):
+                    end_of_previous[j] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-- 
2.43.0


From 92baa60c367af2d026847429e0ac7837606cf83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 38/84] fix: merge series of different times into one
 interactive plot

---
 trappy/plotter/ILinePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..8fe1c0f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1).sort_index()
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From f46c9ca2202e20c05ed54c82c79d5179b0642a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 39/84] fix: show every series of an interactive plot, under
 its own name

---
 trappy/plotter/ILinePlot.py | 52 ++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 8fe1c0f..b166e83 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -224,33 +224,31 @@ class ILinePlot(AbstractDataPlotter):
         self._layout = ILinePlotGen(len_pivots, **self._attr)
         plot_index = 0
         for p_val in pivot_vals:
-            data_dict = OrderedDict()
+            series = []
+            legends = []
+            title = ""
             for constraint in self.c_mgr:
                 if permute:
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
                         continue
-                    legend = constraint._template.name + ":" + constraint.column
+                    legend = str(constraint.column)
+                    if constraint._template:
+                        legend = constraint._template.name + ":" + legend
+                    title = constraint.get_data_name()
                 else:
                     pivot = p_val
                     legend = str(constraint)
 
                 result = constraint.result
                 if pivot in result:
-                    data_dict[legend] = result[pivot]
+                    series.append(result[pivot])
+                    legends.append(legend)
 
-            if permute:
-                title = self.traces[plot_index].name
-            elif pivot != AttrConf.PIVOT_VAL:
+            if not permute and pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
-            else:
-                title = ""
-
-            if len(data_dict) > 1:
-                data_frame = self._fix_indexes(data_dict)
-            else:
-                data_frame = pd.DataFrame(data_dict)
 
+            data_frame = self._merge(series, legends)
             self._layout.add_plot(plot_index, data_frame, title, test=test)
             plot_index += 1
 
@@ -267,27 +265,39 @@ class ILinePlot(AbstractDataPlotter):
         for constraint in self.c_mgr:
             result = constraint.result
             title = str(constraint)
-            data_dict = OrderedDict()
+            series = []
+            legends = []
 
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = str(constraint.column)
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-                    data_dict[key] = result[pivot]
-
-            if len(data_dict) > 1:
-                data_frame = self._fix_indexes(data_dict)
-            else:
-                data_frame = pd.DataFrame(data_dict)
+                    series.append(result[pivot])
+                    legends.append(key)
 
+            data_frame = self._merge(series, legends)
             self._layout.add_plot(plot_index, data_frame, title)
             plot_index += 1
 
         self._layout.finish()
 
+    def _merge(self, series, legends):
+        """Merge the series into one DataFrame, whose columns are the legends
+        (of which some may be the same)"""
+
+        data_dict = OrderedDict(enumerate(series))
+
+        if len(data_dict) > 1:
+            data_frame = self._fix_indexes(data_dict)
+        else:
+            data_frame = pd.DataFrame(data_dict)
+
+        data_frame.columns = legends
+        return data_frame
+
     def _fix_indexes(self, data_dict):
         """
         In case of multiple traces with different indexes (i.e. x-axis values),
-- 
2.43.0


From 436eefa6aa48dd06c514e8da275108008095343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 40/84] fix: don't synchronise interactive plots that aren't in
 one group

---
 trappy/plotter/ILinePlotGen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..8e34757 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -186,6 +186,8 @@ class ILinePlotGen(object):
         self._fig_map = {}
         self._fig_index = 0
 
+        self._sync_group = uuid.uuid4().hex
+
         self._single_plot = False
         if self.num_plots == 0:
             raise RuntimeError("No plots for the given constraints")
@@ -249,10 +251,10 @@ class ILinePlotGen(object):
 
         self._check_add_scatter(fig_params)
 
-        # Use a hash of this object as a default for the sync group, so that if
-        # 'sync_zoom=True' then by default (i.e. if 'group' is not specified),
-        # all the plots in a figure are synced.
-        fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))
+        # Use a name unique to this object as a default for the sync group, so
+        # that if 'sync_zoom=True' then by default (i.e. if 'group' is not
+        # specified), all the plots in a figure, and no others, are synced.
+        fig_params["syncGroup"] = self._attr.get("group", self._sync_group)
         fig_params["syncZoom"] = self._attr.get("sync_zoom",
                                                 AttrConf.DEFAULT_SYNC_ZOOM)
 
-- 
2.43.0


From dd55221c153a1c5a8012c73ab5a8c8a24a77dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 41/84] fix: don't refer to the data of plots that there aren't

---
 trappy/plotter/ILinePlotGen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index 8e34757..b438d19 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -161,7 +161,8 @@ class ILinePlotGen(object):
         for _ in range(self._rows):
             self._begin_row()
             legend_figs = []
-            for _ in range(self._attr["per_line"]):
+            for _ in range(min(self._attr["per_line"],
+                               self.num_plots - self._fig_index)):
                 fig_name = self._generate_fig_name()
                 legend_figs.append(fig_name)
                 self._add_graph_cell(fig_name, color_map)
-- 
2.43.0


From 7ba40a25d94b1224a464891d7be690b1e179b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 42/84] fix: draw the series of interactive plots in the colors
 of their signals

---
 trappy/plotter/ILinePlot.py    | 25 ++++++++++++++++++++++---
 trappy/plotter/ILinePlotGen.py | 27 +++++++++++++++++++--------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index b166e83..f20a6e3 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -226,6 +226,8 @@ class ILinePlot(AbstractDataPlotter):
         for p_val in pivot_vals:
             series = []
             legends = []
+            colors = []
+            num_signals = 0
             title = ""
             for constraint in self.c_mgr:
                 if permute:
@@ -244,12 +246,15 @@ class ILinePlot(AbstractDataPlotter):
                 if pivot in result:
                     series.append(result[pivot])
                     legends.append(legend)
+                    colors.append(num_signals)
+                num_signals += 1
 
             if not permute and pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
             data_frame = self._merge(series, legends)
-            self._layout.add_plot(plot_index, data_frame, title, test=test)
+            self._layout.add_plot(plot_index, data_frame, title, test=test,
+                                  colors=self._get_colors(colors))
             plot_index += 1
 
         self._layout.finish()
@@ -267,23 +272,37 @@ class ILinePlot(AbstractDataPlotter):
             title = str(constraint)
             series = []
             legends = []
+            colors = []
 
-            for pivot in pivot_vals:
+            for pivot_index, pivot in enumerate(pivot_vals):
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
                         key = str(constraint.column)
+                        colors.append(plot_index)
                     else:
+                        colors.append(pivot_index)
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
                     series.append(result[pivot])
                     legends.append(key)
 
             data_frame = self._merge(series, legends)
-            self._layout.add_plot(plot_index, data_frame, title)
+            self._layout.add_plot(plot_index, data_frame, title,
+                                  colors=self._get_colors(colors))
             plot_index += 1
 
         self._layout.finish()
 
+    def _get_colors(self, indices):
+        """The colors (if any are given) of the signals (or pivot values) of
+        those indices"""
+
+        colors = self._attr.get("colors")
+        if not colors:
+            return None
+
+        return [colors[i % len(colors)] for i in indices]
+
     def _merge(self, series, legends):
         """Merge the series into one DataFrame, whose columns are the legends
         (of which some may be the same)"""
diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index b438d19..c08a668 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -73,9 +73,16 @@ class ILinePlotGen(object):
         N_{rows} = \\frac{N_{cols}}{N_{plots}}
     """
 
-    def _add_graph_cell(self, fig_name, color_map):
+    def _add_graph_cell(self, fig_name):
         """Add a HTML table cell to hold the plot"""
 
+        cell = '<td style="border-style: hidden;"><div class="ilineplot" id="{}"></div></td>'.format(fig_name)
+
+        self._html.append(cell)
+
+    def _add_graph_js(self, fig_name, color_map):
+        """Add the script that draws the plot"""
+
         colors_opt_arg = ", " + to_dygraph_colors(color_map) if color_map else ""
 
         graph_js = ''
@@ -113,9 +120,6 @@ class ILinePlotGen(object):
             </script>
         """
 
-        cell = '<td style="border-style: hidden;"><div class="ilineplot" id="{}"></div></td>'.format(fig_name)
-
-        self._html.append(cell)
         self._js.append(graph_js)
 
     def _add_legend_cell(self, fig_name):
@@ -149,7 +153,7 @@ class ILinePlotGen(object):
         self._fig_index += 1
         return fig_name
 
-    def _init_html(self, color_map):
+    def _init_html(self):
         """Initialize HTML code for the plots"""
 
         table = '<table style="border-style: hidden;">'
@@ -165,7 +169,7 @@ class ILinePlotGen(object):
                                self.num_plots - self._fig_index)):
                 fig_name = self._generate_fig_name()
                 legend_figs.append(fig_name)
-                self._add_graph_cell(fig_name, color_map)
+                self._add_graph_cell(fig_name)
 
             self._end_row()
             self._begin_row()
@@ -201,7 +205,8 @@ class ILinePlotGen(object):
             self._rows += 1
 
         self._attr["height"] = AttrConf.HTML_HEIGHT
-        self._init_html(kwargs.pop("colors", None))
+        self._colors = kwargs.pop("colors", None)
+        self._init_html()
 
     def _check_add_scatter(self, fig_params):
         """Check if a scatter plot is needed
@@ -216,7 +221,8 @@ class ILinePlotGen(object):
 
         fig_params["pointSize"] = self._attr["point_size"]
 
-    def add_plot(self, plot_num, data_frame, title="", test=False):
+    def add_plot(self, plot_num, data_frame, title="", test=False,
+                 colors=None):
         """Add a plot for the corresponding index
 
         :param plot_num: The linear index of the plot
@@ -227,6 +233,10 @@ class ILinePlotGen(object):
 
         :param title: The title for the plot
         :type title: str
+
+        :param colors: The colors of the lines of the plot, if not
+            those given for all the plots
+        :type colors: list of rgb tuples
         """
 
         datapoints = sum(len(v) for v in data_frame.values)
@@ -270,6 +280,7 @@ class ILinePlotGen(object):
         self._js_plot_data.append("<script>")
         self._js_plot_data.append(fig_data)
         self._js_plot_data.append("</script>")
+        self._add_graph_js(fig_name, colors or self._colors)
 
     def finish(self):
         """Called when the Plotting is finished"""
-- 
2.43.0


From 81312afec37b95a57b8586137f8c10032b11022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 43/84] fix: look up colors of color maps by their very index

---
 trappy/plotter/ColorMap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ColorMap.py b/trappy/plotter/ColorMap.py
index 4620fba..17b63a9 100644
--- a/trappy/plotter/ColorMap.py
+++ b/trappy/plotter/ColorMap.py
@@ -81,4 +81,8 @@ class ColorMap(object):
         rgb_map = ListedColormap(rgb_list, name='default_color_map', N=None)
         num_colors = len(rgb_list)
 
-        return cls(num_colors, cmap=rgb_map)
+        color_map = cls(num_colors, cmap=rgb_map)
+        # The indices need no scaling (which could miss the color by one)
+        color_map.color_norm = clrs.NoNorm()
+        color_map.scalar_map.set_norm(color_map.color_norm)
+        return color_map
-- 
2.43.0


From 0775210163fd0960f440e285496faea403b3d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 44/84] fix: plot signals of which only some have a color

---
 trappy/plotter/AbstractDataPlotter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/AbstractDataPlotter.py b/trappy/plotter/AbstractDataPlotter.py
index 9d69fe6..3bfd414 100644
--- a/trappy/plotter/AbstractDataPlotter.py
+++ b/trappy/plotter/AbstractDataPlotter.py
@@ -22,6 +22,7 @@ from builtins import object
 from abc import abstractmethod, ABCMeta
 from pandas import DataFrame
 import re
+from trappy.plotter.ColorMap import ColorMap
 from trappy.utils import listify
 from functools import reduce
 from future.utils import with_metaclass
@@ -127,4 +128,8 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
             colors.append(color)
 
         if any(colors):
-            self._attr["colors"] = colors
+            # Signals may be given with and without color
+            default = ColorMap(len(colors))
+            self._attr["colors"] = [
+                color or [int(255 * x) for x in default.cmap(i)[:3]]
+                for i, color in enumerate(colors)]
-- 
2.43.0


From 8760de0bfc10a3617e7e6a229d2ab487d59adca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 45/84] fix: drop the lost interval of a task that was renamed
 meanwhile

---
 trappy/plotter/Utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..324d12d 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,9 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
+            # (it may have had another name then)
+            del data[pmap[next_pid]][-1]
             del pmap[next_pid]
-            del data[name][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From dbd58e8de5f962b37221480d22677609ceae9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 46/84] fix: plot the residency of tasks whose name is a number

---
 trappy/plotter/Utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 324d12d..28592f1 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -67,7 +67,7 @@ def get_trace_event_data(trace, execnames=None, pids=None):
     for index, row in data_frame.iterrows():
         prev_pid = row["prev_pid"]
         next_pid = row["next_pid"]
-        next_comm = row["next_comm"]
+        next_comm = str(row["next_comm"])
 
         if prev_pid in pmap:
             name = pmap[prev_pid]
-- 
2.43.0


From f4f5213b7ad680113b1e85d2ed8b1a5dba96188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 47/84] fix: plot traces that don't tell the number of CPUs

---
 trappy/plotter/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..f46aba2 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,11 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+    # Not every trace tells the number of CPUs
+    num_cpus = getattr(trace, "_cpus", None)
+    if num_cpus is None:
+        num_cpus = 1 + trace.sched_switch.data_frame["__cpu"].max()
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=int(num_cpus))
     trace_graph.view()
-- 
2.43.0


From 74cad734c40c0c659554a8508bf495757ceac873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 48/84] fix: honour stride in event plots

---
 trappy/plotter/EventPlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index ff7aee5..b2882c0 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -121,7 +121,7 @@ class EventPlot(AbstractDataPlotter):
             lane_prefix="Lane: ",
             num_lanes=0,
             summary=True,
-            stride=False,
+            stride=AttrConf.EVENT_PLOT_STRIDE,
             lanes=None,
             color_map=None):
 
@@ -138,7 +138,7 @@ class EventPlot(AbstractDataPlotter):
         graph["xDomain"] = domain
         graph["keys"] = sorted(keys, key=lambda x: avg[x], reverse=True)
         graph["showSummary"] = summary
-        graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
+        graph["stride"] = stride
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
         self._data = json.dumps(graph)
-- 
2.43.0


From ab9c47edd7274c76bf752afcd564cb4c93d4da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 49/84] fix: pad cluster and GPU data in time order

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 241c7bc..fb8737b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -702,7 +702,8 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
+                                     axis=1).sort_index()
             else:
                 allfreqs = cpu_allfreqs
 
@@ -724,7 +725,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
         except KeyError:
             pass
 
@@ -756,7 +757,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From 881894c7d74f0ed5e157b6c893b73ea406d45fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 50/84] fix: normalize the load of traces in which a cluster is
 silent

---
 trappy/cpu_power.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..7c77528 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -178,6 +178,8 @@ class CpuInPower(Base):
         for cpumask in mapping_label:
             num_cpus = num_cpus_in_mask(cpumask)
             idx = dfr["cpus"] == cpumask
+            if not idx.any():
+                continue
             max_freq = max(dfr[idx]["freq"])
             load_series[idx] = load_series[idx] / (max_freq * num_cpus)
 
-- 
2.43.0


From 6548ec86dc20bb76f4fd83c7a05166f52c70c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 51/84] fix: get the frequencies of traces in which a cluster
 is silent

---
 trappy/ftrace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index fb8737b..7949fe1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -608,8 +608,9 @@ is part of the trace.
             in_label = label + "_freq_in"
             out_label = label + "_freq_out"
 
-            cpu_inout_freq_dict = {in_label: cpu_in_freqs[label],
-                                   out_label: cpu_out_freqs[label]}
+            no_data = pd.Series(dtype="float64")
+            cpu_inout_freq_dict = {in_label: cpu_in_freqs.get(label, no_data),
+                                   out_label: cpu_out_freqs.get(label, no_data)}
             dfr = pd.DataFrame(cpu_inout_freq_dict).fillna(method="pad")
             ret.append((label, dfr))
 
-- 
2.43.0


From 92df23d7dff8ac29610c989c0b970fcf2eb71b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 52/84] fix: title histograms of input frequencies as such

---
 trappy/ftrace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 7949fe1..67d734b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -695,12 +695,12 @@ is part of the trace.
             devfreq_out_all_freqs = None
             devfreq_in_all_freqs = None
 
-        out_allfreqs = (self.cpu_out_power.get_all_freqs(map_label),
+        out_allfreqs = ("out", self.cpu_out_power.get_all_freqs(map_label),
                         devfreq_out_all_freqs, ax[0:in_base_idx])
-        in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
+        in_allfreqs = ("in", self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
@@ -709,7 +709,7 @@ is part of the trace.
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 5f47bcdf26b9d823c7675ea403546b47a74d3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 53/84] fix: name the GPU in frequency histograms

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 67d734b..54683b7 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -702,7 +702,7 @@ is part of the trace.
 
         for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
-                devfreq_freqs.name = "GPU"
+                devfreq_freqs = devfreq_freqs.rename(columns={"freq": "GPU"})
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
                                      axis=1).sort_index()
             else:
-- 
2.43.0


From 40d2e304061cfdeb7e9594bf45bf0ad57799eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 54/84] fix: frequency histograms are in MHz

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 54683b7..f831c27 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -58,7 +58,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
-- 
2.43.0


From 45907ab62197c592a8f96b3a49b2c1f5ad61fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 55/84] fix: combine results of runs with different benchmarks

---
 trappy/wa/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..8d4277c 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -159,8 +159,9 @@ def combine_results(data):
     """
 
     res_dict = {}
-    for benchmark in data[0].columns.levels[0]:
-        concat_objs = [d[benchmark] for d in data]
+    benchmarks = [b for d in data for b in d.columns.get_level_values(0)]
+    for benchmark in sorted(set(benchmarks)):
+        concat_objs = [d[benchmark] for d in data if benchmark in d]
         res_dict[benchmark] = pd.concat(concat_objs, axis=1)
 
     combined = pd.concat(res_dict.values(), axis=1, keys=res_dict.keys())
-- 
2.43.0


From bde2b91f4787ee47b586d2c1647a404d9f8f72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 56/84] fix: print sysfs parameters with current pandas

---
 trappy/wa/sysfs_extractor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..458f434 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -90,7 +90,6 @@ class SysfsExtractor(object):
         if len(params) == 0:
             return
 
-        params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        keys = sorted(params)
+        dfr = pd.DataFrame({"Value": [params[key] for key in keys]}, index=keys)
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From 88f533fa35e4a6da482dfa2332f7b65d447634d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 57/84] fix: keep sysfs parameters without a trailing newline
 whole

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 458f434..52b48e4 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From ce084f6560524517a6510164d644d6374ed6e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 58/84] fix: inline the scripts in every exported notebook

---
 trappy/nbexport/exporter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..29a571b 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,14 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Preprocess a notebook, which inlines what it needs itself"""
+
+        self.inlined_files = []
+        self.sourced_libs = []
+
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From eca81a5cdc43b2756525ff025c36f5edfddd5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 59/84] fix: plot the temperature of the thermal zone asked for
 only

---
 trappy/plot_utils.py | 5 +++--
 trappy/thermal.py    | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..7ec7cc5 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,7 +157,7 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
+        if tz_id is not None and len(gov_dfr) > 0:
             gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
@@ -172,7 +172,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..72a6336 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,14 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
+                         ax=None, legend_label="", tz_id=None):
         """Plot the temperature"""
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 4636cbe6bc7fdd194d4a6858622d738c6a2885f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 60/84] fix: plot temperature histograms of the runs with
 temperatures only

---
 trappy/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 7ec7cc5..800c950 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -309,10 +309,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From b256e9bba67d84766e5c1e10978f31eb3c15ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 61/84] fix: match weights of more than ten cooling devices to
 their actors

---
 trappy/plot_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 800c950..3c9dc82 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -246,10 +246,13 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
 
         thermal_params = sysfs.get_parameters()
 
-        sorted_weights = []
-        for param in sorted(thermal_params):
-            if re.match(r"cdev\d+_weight", param):
-                sorted_weights.append(thermal_params[param])
+        weights = {}
+        for param in thermal_params:
+            match = re.match(r"cdev(\d+)_weight", param)
+            if match:
+                weights[int(match.group(1))] = thermal_params[param]
+
+        sorted_weights = [weights[cdev] for cdev in sorted(weights)]
 
         actor_weights.append(list(zip(actor_order, sorted_weights)))
 
-- 
2.43.0


From 6b96cb8a66385971c1c1f37f89119643fa2d36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 62/84] fix: plot weighted input power when some runs have no
 weights

---
 trappy/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 3c9dc82..91a2d5e 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -267,6 +267,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
+        if not weights:
+            continue
+
         run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
                                                        ax=ax)
 
-- 
2.43.0


From 90b7e99f0838c05830acb20cd708f1f86326aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 63/84] fix: SchedLoadAvgTask.get_pids() raised

It used DataFrame.ix, which pandas removed, and failed if there were no
events or the name of a task is a number.
---
 trappy/sched.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..957eaba 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -55,10 +55,14 @@ class SchedLoadAvgTask(Base):
     def get_pids(self, key=""):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
+        if self.data_frame.empty:
+            return []
+
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr[['comm', 'pid']]
 
-        return dfr[dfr['comm'].str.contains(key)].values.tolist()
+        # Names that are numbers have been converted to integers
+        return dfr[dfr['comm'].astype(str).str.contains(key)].values.tolist()
 
 register_ftrace_parser(SchedLoadAvgTask, "sched")
 
-- 
2.43.0


From 016ca119e4535ff59d05eff823b082ee6092944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 64/84] fix: events with a field called Time could not be
 parsed or normalized

---
 trappy/base.py  | 6 +++---
 trappy/utils.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 6654300..ad36da4 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -399,6 +399,6 @@ class Base(object):
         :type basetime: float
         """
         if basetime and not self.data_frame.empty:
-            self.data_frame.reset_index(inplace=True)
-            self.data_frame["Time"] = self.data_frame["Time"] - basetime
-            self.data_frame.set_index("Time", inplace=True)
+            # The events may have a field called Time, too
+            self.data_frame.index = self.data_frame.index - basetime
+            self.data_frame.index.name = "Time"
diff --git a/trappy/utils.py b/trappy/utils.py
index 58c8380..b1550ab 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,7 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import numpy as np
 import pandas as pd
 
 def listify(to_select):
@@ -78,7 +79,7 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data = data.sort_values(['Time', '__line'])
+        data = data.iloc[np.lexsort((data['__line'], data.index))]
 
     index = data.index
     dups = index[index.duplicated()].unique()
-- 
2.43.0


From 5e9b46d10eb705db369cd0a35328c112b5605b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 65/84] fix: a failed download left a partial file installed as
 a plot resource

---
 trappy/plotter/IPythonConf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..b15f07b 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -64,11 +64,18 @@ def install_http_resource(url, to_path):
     :param to_path: Destination path on the disk
     :type to_path: str
     """
+    # A file at to_path counts as installed, so it has to be complete
+    # from the moment it appears there
+    part_path = "{}.part{}".format(to_path, os.getpid())
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
+        urllib.request.urlretrieve(url, filename=part_path)
+        os.rename(part_path, to_path)
     except IOError:
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
+    finally:
+        if os.path.isfile(part_path):
+            os.remove(part_path)
 
 
 def install_local_resource(from_path, to_path):
-- 
2.43.0


From 07df514ab1981bcc91486d17e3841b8c40063dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 66/84] fix: showing plots for the first time in two notebooks
 at once could fail

---
 trappy/plotter/IPythonConf.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index b15f07b..914f3fc 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -110,6 +110,20 @@ def install_resource(from_path, to_path):
         install_local_resource(from_path, to_path)
 
 
+def ensure_dir(path):
+    """Make a directory unless it exists
+
+    :param path: Path of the directory
+    :type path: str
+    """
+    try:
+        os.makedirs(path)
+    except OSError:
+        # It may have been made by another notebook in the meantime
+        if not os.path.isdir(path):
+            raise
+
+
 def iplot_install(module_name):
     """Install the resources for the module to the Ipython
     profile directory
@@ -129,8 +143,7 @@ def iplot_install(module_name):
             module_name)
 
         # Ensure if the directory exists
-        if not os.path.isdir(resource_dest_dir):
-            os.mkdir(resource_dest_dir)
+        ensure_dir(resource_dest_dir)
         resource_dest_path = os.path.join(resource_dest_dir, resource_name)
         install_resource(resource, resource_dest_path)
 
@@ -214,6 +227,5 @@ def get_scripts_path(profile=None):
     """
 
     dir_name = os.path.join(get_ipython_dir(profile), PLOTTER_SCRIPTS)
-    if not os.path.isdir(dir_name):
-        os.makedirs(dir_name)
+    ensure_dir(dir_name)
     return dir_name
-- 
2.43.0


From 4a5ccd81534bd773b1c49623413f815b623d4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 67/84] fix: publish_interactive_plots.py could not be run

IPython.nbformat is a package of its own since IPython 4.
---
 scripts/publish_interactive_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 1473923..76b1b64 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -25,7 +25,7 @@ from __future__ import print_function
 
 import os
 import argparse
-from IPython.nbformat.sign import TrustNotebookApp
+from nbformat.sign import TrustNotebookApp
 from argparse import RawTextHelpFormatter
 
 # Logging Configuration
@@ -81,7 +81,7 @@ def publish(source, target):
         file_fh.write(txt)
 
     trust = TrustNotebookApp()
-    trust.sign_notebook(target)
+    trust.sign_notebook_file(target)
     logging.info("Signed and Saved: %s", target)
 
 def main():
-- 
2.43.0


From 46e4f179776f3aa27f36273a32847b8503e29a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 68/84] fix: published event plots kept loading d3 from the
 local server

---
 scripts/publish_interactive_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 76b1b64..db11969 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -45,7 +45,7 @@ def change_resource_paths(txt):
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
         IPythonConf.D3_TIP_URL)
     txt = txt.replace(
-        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.v3.min"),
+        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
         IPythonConf.D3_PLOTTER_URL)
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
-- 
2.43.0


From 153e8ffe84ed18f1f9efa4c7e06e99a2bdbc595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 69/84] fix: published plots asked for their libraries with the
 extension doubled

---
 scripts/publish_interactive_plots.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index db11969..4a4ae97 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -35,6 +35,14 @@ from trappy.plotter import IPythonConf
 logging.basicConfig(level=logging.INFO)
 
 
+def module_url(url):
+    """The URL of a script for requirejs, which appends the
+       extension itself
+    """
+
+    return os.path.splitext(url)[0]
+
+
 def change_resource_paths(txt):
     """Change the resource paths from local to
        Web URLs
@@ -43,25 +51,25 @@ def change_resource_paths(txt):
     # Replace the path for d3-tip
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
-        IPythonConf.D3_TIP_URL)
+        module_url(IPythonConf.D3_TIP_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
-        IPythonConf.D3_PLOTTER_URL)
+        module_url(IPythonConf.D3_PLOTTER_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
         "https://rawgit.com/sinkap/7f89de3e558856b81f10/raw/46144f8f8c5da670c54f826f0c634762107afc66/EventPlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/synchronizer"),
-        IPythonConf.DYGRAPH_SYNC_URL)
+        module_url(IPythonConf.DYGRAPH_SYNC_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/dygraph-combined"),
-        IPythonConf.DYGRAPH_COMBINED_URL)
+        module_url(IPythonConf.DYGRAPH_COMBINED_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/ILinePlot"),
         "https://rawgit.com/sinkap/648927dfd6985d4540a9/raw/69d6f1f9031ae3624c15707315ce04be1a9d1ac3/ILinePlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/underscore-min"),
-        IPythonConf.UNDERSCORE_URL)
+        module_url(IPythonConf.UNDERSCORE_URL))
 
     logging.info("Updated Library Paths...")
     return txt
-- 
2.43.0


From 6447fa5a43609550f1cf8027a3dffa0bda45c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 70/84] fix: EventPlot failed to show the details of an event

---
 trappy/plotter/js/EventPlot.js | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..dcdc598 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,21 +63,21 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
 
-            var data = ePlot.items[name];
-            var xMax = ePlot.zoomScale.domain()[1];
-            var right = search_data(data, 0, xMax, 0, data.length - 1);
-            var left = search_data(data, 1, x0, 0, right);
+            /* The events are hashed by their lane, too */
+            var data = ePlot.items[name][y0];
 
             if (data) {
+                var xMax = ePlot.zoomScale.domain()[1];
+                var right = search_data(data, 0, xMax, 0, data.length - 1);
+                var left = search_data(data, 1, x0, 0, right);
                 var candidate = data[left];
                 if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
+                        candidate[1] >= x0)
                     return {
                             name: name,
-                            info: candidate
+                            info: [candidate[0], candidate[1], y0]
                         };
             }
         }
-- 
2.43.0


From 8864c72dc0779fbb56eab3e01aadb0c33bd96873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 71/84] fix: EventPlot gave events the colours of others if a
 color_map left some out

---
 trappy/plotter/js/EventPlot.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index dcdc598..1db0b14 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -122,9 +122,12 @@ var EventPlot = (function () {
             } else {
                 // Use colours provided by user
                 var colours = [];
-                for (var i in names)
+                var others = d3.scale.category20().range();
+                for (var i = 0; i < names.length; i++)
                     if (names[i] in d.colorMap)
                         colours.push(d.colorMap[names[i]]);
+                    else
+                        colours.push(others[i % others.length]);
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From 040f81558d284f4da3484f39976dc7b73e2c2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 72/84] fix: EventPlot without a summary was not redrawn when
 resized

---
 trappy/plotter/js/EventPlot.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 1db0b14..8ef1079 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -438,7 +438,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -461,8 +462,6 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
         ePlot.mini.call(ePlot.miniAxis);
@@ -483,8 +482,10 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From 472eeea651ce9be9b463eb67a08d60f9258825da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 73/84] fix: EventPlots on a page used the width and scale of
 the last one

---
 trappy/plotter/js/EventPlot.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 8ef1079..7f2c6a9 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -86,7 +86,7 @@ var EventPlot = (function () {
     var generate = function (div_name, base, chart_data) {
 
         var margin, brush, x, ext, yMain, chart, main,
-            mainAxis,
+            mainAxis, width, mainHeight, brushScale,
             itemRects, items, colourAxis, tip, lanes;
 
         var process_chart_data = function (d) {
@@ -427,7 +427,7 @@ var EventPlot = (function () {
 
             var resize = function() {
 
-                var width = div.width() - margin.left
+                width = div.width() - margin.left
                     - margin.right;
 
                 /* Update scale ranges */
-- 
2.43.0


From 159e8f07622c6235fb559360c567e05bae43e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 74/84] fix: zooming and panning a resized EventPlot went by
 its old width

---
 trappy/plotter/js/EventPlot.js | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 7f2c6a9..a48b8eb 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -353,15 +353,9 @@ var EventPlot = (function () {
 
             chart.on("contextmenu", contextMenuHandler);
 
-            if (showSummary) {
-                var _brushed_event = function () {
-                    main.selectAll("path")
-                        .remove();
-                    var brush_xmin = brush.extent()[0];
-                    var brush_xmax = brush.extent()[1];
-
+            /* Zoom such that new_domain is in view */
+            var setView = function (new_domain) {
                     var t = zoom.translate(),
-                        new_domain = brush.extent(),
                         scale;
 
                     /*
@@ -386,8 +380,16 @@ var EventPlot = (function () {
                     t[0] = x.range()[0] - (x(new_domain[
                         0]) * scale);
                     zoom.translate(t);
+            };
 
+            if (showSummary) {
+                var _brushed_event = function () {
+                    main.selectAll("path")
+                        .remove();
+                    var brush_xmin = brush.extent()[0];
+                    var brush_xmax = brush.extent()[1];
 
+                    setView(brush.extent());
                     brushScale.domain(brush.extent())
                     drawMain(ePlot, brush_xmin,
                         brush_xmax);
@@ -430,9 +432,15 @@ var EventPlot = (function () {
                 width = div.width() - margin.left
                     - margin.right;
 
-                /* Update scale ranges */
+                /* Update scale ranges. The zoom behaviour works
+                 * on a copy of its scale, so it has to be given
+                 * the resized one
+                 */
+                var view = zoomScale.domain();
                 x.range([0, width]);
-                zoomScale.range([0, width]);
+                zoomScale.domain(x.domain()).range([0, width]);
+                zoom.x(zoomScale);
+                setView(view);
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
-- 
2.43.0


From d05e59c92ed4e4ec919eab867c87e5908636944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 75/84] fix: a click on the summary of an EventPlot emptied the
 plot

---
 trappy/plotter/js/EventPlot.js | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index a48b8eb..3cd4ed1 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -384,6 +384,10 @@ var EventPlot = (function () {
 
             if (showSummary) {
                 var _brushed_event = function () {
+                    /* Nothing can be seen of an empty window */
+                    if (brush.empty())
+                        return;
+
                     main.selectAll("path")
                         .remove();
                     var brush_xmin = brush.extent()[0];
@@ -402,7 +406,14 @@ var EventPlot = (function () {
                 brush = d3.svg.brush()
                     .x(x)
                     .extent(x.domain())
-                    .on("brush", _brushed_event);
+                    .on("brush", _brushed_event)
+                    .on("brushend", function () {
+                        if (brush.empty()) {
+                            brush.extent(zoomScale.domain());
+                            ePlot.mini.select(".brush")
+                                .call(brush);
+                        }
+                    });
 
                 ePlot.mini.append('g')
                     .attr('class', 'brush')
-- 
2.43.0


From 712089ff626285d4b17e6cab0e2be7dc08b99812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 76/84] fix: EventPlot labelled the difference B - A of its
 markers as A - B

---
 trappy/plotter/js/EventPlot.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 3cd4ed1..75084a7 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -35,7 +35,7 @@ var EventPlot = (function () {
         HEIGHT: 30,
         START_PREFIX: "A = ",
         END_PREFIX: "B = ",
-        DELTA_PREFIX: "A - B = ",
+        DELTA_PREFIX: "B - A = ",
         XPAD: 10,
         YPAD: 5,
         BOX_BUFFER: 2,
-- 
2.43.0


From 8d3d683ffd4f99e11bfcf3ecf54e104dd446602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 77/84] fix: EventPlot ignored stride

---
 trappy/plotter/js/EventPlot.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 75084a7..738be05 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -244,6 +244,7 @@ var EventPlot = (function () {
                 lanes: lanes,
                 names: names,
                 iDesc: iDesc,
+                stride: d.stride,
             };
             ePlot.zoomScale = zoomScale;
 
@@ -718,7 +719,7 @@ var EventPlot = (function () {
 
         ePlot.mini.append('g')
             .selectAll('miniItems')
-            .data(getPaths(ePlot, ePlot.x, ePlot.yMini))
+            .data(getPaths(ePlot, ePlot.x, ePlot.yMini, ePlot.stride))
             .enter()
             .append('path')
             .attr('class', function (d) {
@@ -818,7 +819,8 @@ var EventPlot = (function () {
 
         var rects, labels;
         var dMin = 10000;
-        var paths = getPaths(ePlot, ePlot.zoomScale, ePlot.yMain);
+        var paths = getPaths(ePlot, ePlot.zoomScale, ePlot.yMain,
+            ePlot.stride);
         ePlot.brushScale.domain([xMin, xMax]);
 
         if (paths.length == 0)
-- 
2.43.0


From 3db1255a15ced1f8b7ca47cb71ca7c8caabdebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 78/84] fix: resizing made ILinePlot graphs too wide for their
 line

---
 trappy/plotter/js/ILinePlot.js | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 309e90d..31f1cfa 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -141,21 +141,20 @@ var ILinePlot = ( function() {
 
         var graph = new Dygraph(document.getElementById(t_info.name), tabular.data, options);
 
-        var width = $("#" + t_info.name)
-            .closest(".output_subarea").width() / t_info.per_line
-
-        /*
-         * Remove 3 pixels from width to avoid unnecessary horizontal scrollbar
-         */
-        graph.resize(width - 3, t_info.height);
-
-        $(window).on("resize." + t_info.name, function() {
+        var resize = function() {
 
             var width = $("#" + t_info.name)
                 .closest(".output_subarea").width() / t_info.per_line
 
-            graph.resize(width, t_info.height);
-        });
+            /*
+             * Remove 3 pixels from width to avoid unnecessary horizontal scrollbar
+             */
+            graph.resize(width - 3, t_info.height);
+        };
+
+        resize();
+
+        $(window).on("resize." + t_info.name, resize);
 
         graphs[t_info.name] =
             {
-- 
2.43.0


From dcad1a7befb933f0f3eb07e034e311bf651916f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 79/84] fix: linked ILinePlot graphs got rows out of order if
 zoomed in

---
 trappy/plotter/js/ILinePlot.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 31f1cfa..9c77719 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -86,14 +86,15 @@ var ILinePlot = ( function() {
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.unshift(_decoy_elem);
                 }
-                graph.rawData_[0][0] = xRange[0];
+                graph.rawData_[0][0] = Math.min(xRange[0], graph.rawData_[1][0]);
 
                 if (graph.padBack_ == undefined) {
                     graph.padBack_ = true;
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.push(_decoy_elem);
                 }
-                graph.rawData_[graph.rawData_.length - 1][0] = xRange[1];
+                graph.rawData_[graph.rawData_.length - 1][0] =
+                    Math.max(xRange[1], graph.rawData_[graph.rawData_.length - 2][0]);
             });
         }
     };
-- 
2.43.0


From d884e67a8b7b538b07169790e3d76fb3572e5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 80/84] fix: plots laid out without a title could not be drawn
 (Correlator.plot)

---
 trappy/plotter/PlotLayout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..747ede0 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -98,6 +98,7 @@ class PlotLayout(object):
         """set the default attrs"""
         self._attr["width"] = AttrConf.WIDTH
         self._attr["length"] = AttrConf.LENGTH
+        self._attr["title"] = AttrConf.TITLE
 
     def get_2d(self, linear_val):
         """Convert Linear to 2D coordinates
-- 
2.43.0


From aa6c889685f6b5e87019a8f008750927afd1c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 81/84] fix: enlarge_axis() made no room for data with missing
 values

---
 trappy/wa/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 8d4277c..945800c 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -40,8 +40,8 @@ class Result(pd.DataFrame):
         (_, _, plot_y_min, plot_y_max) = plt.axis()
 
         concat_data = pd.concat(data[s] for s in data)
-        data_min = min(concat_data)
-        data_max = max(concat_data)
+        data_min = concat_data.min()
+        data_max = concat_data.max()
 
         # A good margin can be 10% of the data range
         margin = (data_max - data_min) / 10
-- 
2.43.0


From 108f7e32d86dba0b220d16ec5359c3baa7226d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 82/84] fix: results plots used the limits and legend of the
 current figure

---
 trappy/wa/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 945800c..e76945f 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -37,7 +37,7 @@ class Result(pd.DataFrame):
     def enlarge_axis(self, data):
         """Make sure that the axis don't clobber some of the data"""
 
-        (_, _, plot_y_min, plot_y_max) = plt.axis()
+        (plot_y_min, plot_y_max) = self.ax.get_ylim()
 
         concat_data = pd.concat(data[s] for s in data)
         data_min = concat_data.min()
@@ -71,8 +71,8 @@ class Result(pd.DataFrame):
             title = benchmark.replace('_', ' ')
             title = title.title()
 
-        self[benchmark].plot(ax=self.ax, kind="bar", title=title)
-        plt.legend(bbox_to_anchor=(1.05, .5), loc=6)
+        ax = self[benchmark].plot(ax=self.ax, kind="bar", title=title)
+        ax.legend(bbox_to_anchor=(1.05, .5), loc=6)
 
     def plot_results(self):
         for bench in self.columns.levels[0]:
-- 
2.43.0


From 023522d7ac196a6e2ce64c2a8a3a8dded7ba194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 83/84] fix: a trace that changed while it was read was cached
 as the new one

---
 trappy/ftrace.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f831c27..f2f1645 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -223,16 +223,17 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             warnings.warn("Cached data is from another kind of trace, invalidating cache.")
             return False
 
-        with open(self.trace_path, 'rb') as f:
-            trace_md5sum = hashlib.md5(f.read()).hexdigest()
-
-        if cache_metadata["md5sum"] != trace_md5sum:
+        if cache_metadata["md5sum"] != self._trace_md5sum:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
             return False
 
         return True
 
+    def _get_trace_md5sum(self):
+        with open(self.trace_path, 'rb') as f:
+            return hashlib.md5(f.read()).hexdigest()
+
     def _prepare_cache_dir(self):
         cache_path = self._trace_cache_path()
 
@@ -241,6 +242,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         os.mkdir(cache_path)
 
     def _update_cache(self):
+        if self._get_trace_md5sum() != self._trace_md5sum:
+            warnings.warn("The trace changed while it was read, not caching it.")
+            return
+
         try:
             # Recreate basic cache directories only if nothing cached
             if not any([c.cached for c in self.trace_classes]):
@@ -304,9 +309,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         metadata = {}
 
         metadata["trace_class"] = self.__class__.__name__
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        metadata["md5sum"] = self._trace_md5sum
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         return metadata
@@ -370,6 +373,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _do_parse(self):
         if not self.__class__.disable_cache:
+            self._trace_md5sum = self._get_trace_md5sum()
             loaded = self._load_cache()
 
             # Check if cache data is enough
-- 
2.43.0


From 65f74371dda11585cb8145b141f7381112fc004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 84/84] fix: processes opening a trace at the same time could
 corrupt its cache

---
 trappy/base.py   | 12 +++++++-----
 trappy/ftrace.py | 27 ++++++++++++++++-----------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index ad36da4..5a587c5 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -341,7 +341,7 @@ class Base(object):
         :type fname: str
 
         :return: A description of the columns, to be given to
-            :meth:`read_cache`
+            :meth:`read_cache`, and the contents of the file
         """
         def encode(value):
             return json.dumps(value, default=lambda obj: obj.item())
@@ -352,17 +352,19 @@ class Base(object):
         for idx, (_, dtype) in enumerate(columns):
             if dtype == "object":
                 dfr[idx] = dfr[idx].map(encode)
-        dfr.to_csv(fname, header=[name for name, _ in columns])
+        content = dfr.to_csv(header=[name for name, _ in columns]).encode("utf-8")
+        with open(fname, "wb") as f:
+            f.write(content)
 
-        return columns
+        return columns, content
 
     def read_cache(self, fname, columns):
         """Read data written with :meth:`write_cache`
 
-        :param fname: The name of the file
+        :param fname: The name of the file, or a file object
         :type fname: str
 
-        :param columns: What :meth:`write_cache` returned
+        :param columns: The columns :meth:`write_cache` returned
         """
         if not columns:
             self.data_frame = pd.DataFrame()
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f2f1645..74675b4 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -252,7 +252,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._prepare_cache_dir()
                 tables = {}
             else:
-                tables = self._get_cache_metadata().get("tables", {})
+                # Not what the metadata says by now: another process may have
+                # replaced it.
+                tables = self._cached_tables
 
             # Cache trace data
             for trace_class in self.trace_classes:
@@ -261,9 +263,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                columns = trace_class.write_cache(csv_file)
+                columns, content = trace_class.write_cache(csv_file)
                 tables[os.path.basename(csv_file)] = dict(
-                    self._describe_table(trace_class, csv_file),
+                    self._describe_table(trace_class, content),
                     columns=columns,
                     words=self._selected_words(),
                     contended=trace_class.unique_word in self._contended_words)
@@ -280,12 +282,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
 
-    def _describe_table(self, trace_class, csv_file):
+    def _describe_table(self, trace_class, content):
         """Describe the cached table of an event, to recognise whether it can
         be used when the cache is loaded"""
-        with open(csv_file, 'rb') as f:
-            return {"md5sum": hashlib.md5(f.read()).hexdigest(),
-                    "unique_word": trace_class.unique_word}
+        return {"md5sum": hashlib.md5(content).hexdigest(),
+                "unique_word": trace_class.unique_word}
 
     def _selected_words(self):
         return [cls.unique_word for cls in self.class_definitions.values()]
@@ -337,17 +338,21 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         self.max_window = self._calc_max_window()
 
         # Load trace data
-        tables = metadata.get("tables", {})
+        tables = self._cached_tables = metadata.get("tables", {})
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                table = tables[os.path.basename(csv_file)]
+                table = dict(tables[os.path.basename(csv_file)])
+                # Another process may replace the file at any time, so what is
+                # checked is what is used
+                with open(csv_file, 'rb') as f:
+                    content = f.read()
                 columns = table.pop("columns")
                 if not self._is_same_table(table.pop("words"),
                                            table.pop("contended")) or \
-                   table != self._describe_table(trace_class, csv_file):
+                   table != self._describe_table(trace_class, content):
                     raise ValueError("{} is not what was cached".format(csv_file))
-                trace_class.read_cache(csv_file, columns)
+                trace_class.read_cache(io.BytesIO(content), columns)
                 trace_class.cached = True
             except:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
-- 
2.43.0

