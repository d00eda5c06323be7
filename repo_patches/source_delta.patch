From 5ece7b968d4018dc2a083ec56808e7c4afa08777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 01/45] fix: a refused Table.insert must not register any key

Table.insert stored the record in the indexes of the constraints checked
before the violated one, so after a KeyError the missing record was found by
getrecord and valid records were refused. Check all the constraints first.
---
 openquake/commonlib/record.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..f32e6b9 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -461,17 +461,16 @@ class Table(collections.MutableSequence):
         """
         for name, unique in self._unique_data.iteritems():
             key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+            if key in unique.dict:
                 msg = []
                 for k, name in zip(key, unique.names):
                     msg.append('%s=%s' % (name, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
+        # update the indexes only if no constraint is violated
+        for name, unique in self._unique_data.iteritems():
+            unique.dict[getattr(rec, name)] = rec
         self._records.insert(position, rec)
 
     def getrecord(self, *pkey):
-- 
2.43.0


From cc53d14ed22d5e16fce7618c7f671234f2dd3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 02/45] fix: replacing a record of a Table must respect the
 unique constraints

Table.__setitem__ had no unique check, so a table could hold two records
with the same key, and then deleting or replacing one of them raised a
KeyError or left stale keys; Table.reverse, inherited, swapped the records
via __setitem__ and corrupted the indexes.
---
 openquake/commonlib/record.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index f32e6b9..3a72718 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -435,7 +435,12 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        for name, unique in self._unique_data.iteritems():
+            old_key = getattr(self._records[i], name)
+            new_key = getattr(new_record, name)
+            if new_key != old_key and new_key in unique.dict:
+                raise KeyError('%s:%d:Duplicated record:%s' %
+                               (self.recordtype.__name__, i, new_key))
         for name, unique in self._unique_data.iteritems():
             old_key = getattr(self._records[i], name)
             new_key = getattr(new_record, name)
@@ -473,6 +478,13 @@ class Table(collections.MutableSequence):
             unique.dict[getattr(rec, name)] = rec
         self._records.insert(position, rec)
 
+    def reverse(self):
+        """
+        Reverse the records in place. The inherited method would go through
+        states with duplicated records.
+        """
+        self._records.reverse()
+
     def getrecord(self, *pkey):
         """
         Extract the record specified by the given primary key.
-- 
2.43.0


From eccaec38c656262cad1f9da05f76480496004363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 03/45] fix: numeric validators must refuse not-a-number and
 minus infinity

No comparison with nan is true, so 'nan' was accepted as a longitude, a
latitude, a probability and a positive float; positivefloat('-inf') raised an
OverflowError while formatting its message, instead of a ValueError.
---
 openquake/commonlib/valid.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..6ead16e 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -21,9 +21,18 @@ Validation library
 """
 
 import re
+import math
 import collections
 
 
+def _number(text):
+    """String -> float, refusing the texts for not-a-number"""
+    f = float(text)
+    if math.isnan(f):
+        raise ValueError('%r is not a number' % text)
+    return f
+
+
 class NoneOr(object):
     """
     Accept the empty string (casted to None) or something else validated
@@ -76,7 +85,7 @@ class FloatRange(object):
         self.maxrange = maxrange
 
     def __call__(self, value):
-        f = float(value)
+        f = _number(value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -103,7 +112,7 @@ def namelist(text):
 
 def longitude(text):
     """String -> longitude float"""
-    lon = float(text)
+    lon = _number(text)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -113,7 +122,7 @@ def longitude(text):
 
 def latitude(text):
     """String -> latitude float"""
-    lat = float(text)
+    lat = _number(text)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -131,9 +140,9 @@ def positiveint(text):
 
 def positivefloat(text):
     """String -> positive float"""
-    f = float(text)
+    f = _number(text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 3ec070c829e64d0b0d4d1583502a9b7c20d12588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 04/45] fix: judge identifiers and intensity measure types on
 the whole text

IMTstr accepted any text starting with an intensity measure type ('PGAxyz',
'SA(0.1)x') and name accepted a trailing newline.
---
 openquake/commonlib/valid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 6ead16e..44c8e5f 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -76,7 +76,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
@@ -171,7 +171,7 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 3d57b5210012c57d19046fe056cf5f424067d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 05/45] fix: sequences of different length are different

Comparing two records or tables of different length raised an AssertionError
instead of returning False; two weighted sequences, one prefix of the other,
were equal, and != was not defined for them, so it compared the identities.
---
 openquake/commonlib/general.py | 8 ++++++++
 openquake/commonlib/record.py  | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..551c986 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,8 +107,16 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
+    def __ne__(self, other):
+        """
+        The negation of the equality
+        """
+        return not self == other
+
     def __repr__(self):
         """
         String representation of the sequence, including the weight
diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 3a72718..f753dd1 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -501,7 +502,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From 43fa4bb283c7e7f025ca6255153b823549c71f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 06/45] fix: items of zero weight must not affect the blocks

A zero-weight item, although ignored, set the kind of the current block, so
block_splitter put items of different kinds in the same block (or closed a
block without reason).
---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 551c986..7aca24d 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -189,7 +189,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From 4517df984a11af37fd761861537c916c971138f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 07/45] fix: deep_eq must report every difference and nothing
 else

Dictionaries with different keys raised KeyError, objects of different
kinds raised TypeError, unicode strings recursed forever and the excluded
attributes were not excluded in nested objects.
---
 openquake/commonlib/general.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 7aca24d..15744cd 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -264,14 +264,16 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
+        a = dict((k, v) for k, v in a.iteritems() if k not in exclude)
+        b = dict((k, v) for k, v in b.iteritems() if k not in exclude)
         assert len(a) == len(b), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
             a=a, b=b, len_a=len(a), len_b=len(b))
 
         for key in a:
-            if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+            assert key in b, "The key %r is missing in %s" % (key, b)
+            _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -281,13 +283,15 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
+        assert isinstance(b, (list, tuple)), "%r is not a sequence" % (b,)
         _test_seq(a, b)
     # dicts
     elif isinstance(a, dict):
+        assert isinstance(b, dict), "%r is not a dictionary" % (b,)
         _test_dict(a, b)
     # objects with a __dict__
     elif hasattr(a, '__dict__'):
@@ -295,7 +299,10 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif isinstance(a, collections.Iterable) and not isinstance(
+            a, basestring):
+        assert (isinstance(b, collections.Iterable) and not
+                isinstance(b, basestring)), "%r is not iterable" % (b,)
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
         _test_seq(list(a), list(b))
@@ -307,15 +314,16 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
     else:
         # Objects must be primitives
 
         # Are they numbers?
-        if isinstance(a, (int, long, float, complex)):
+        numbers = (int, long, float, complex)
+        if isinstance(a, numbers) and isinstance(b, numbers):
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
-            assert a == b, "%s != %s" % (a, b)
+            assert a == b, "%r != %r" % (a, b)
 
 
 def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
-- 
2.43.0


From c376772c5a7ba3ffbd2008d628b90f408a0f834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 08/45] fix: TaskManager.wait passed the manager as aggregation
 function

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From 487ea6f9d38ae4fb99e8a25286bd94dd50d651cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 09/45] fix: the percentage of tasks done must not suffer from
 rounding

For instance 29 tasks over 100 were reported as 28%.
---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..b11f612 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -114,7 +114,7 @@ def log_percent_gen(taskname, todo, progress):
     done = 1
     prev_percent = 0
     while done < todo:
-        percent = int(float(done) / todo * 100)
+        percent = 100 * done // todo
         if percent > prev_percent:
             progress('%s %3d%%', taskname, percent)
             prev_percent = percent
-- 
2.43.0


From cda9c39820a78aef465f0a0e40a50113a08f2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 10/45] fix: pickle_sequence must keep alive the objects it
 identifies by id

Otherwise an object generated on the fly may get the id of a previous one,
already collected, and be replaced by it.
---
 openquake/commonlib/parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index b11f612..72b182b 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -162,6 +162,7 @@ def pickle_sequence(objects):
     """
     cache = {}
     out = []
+    objects = list(objects)  # kept alive, so that the ids are not reused
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
-- 
2.43.0


From e2b26d9435299fd71ed4557f167f8ec72194e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 11/45] fix: PerformanceMonitor mixed processes denying access
 at the end

The measures at start and stop were paired by position even if a process
was not readable anymore at the end of the block.
---
 openquake/commonlib/parallel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 72b182b..b393447 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -343,13 +343,16 @@ class PerformanceMonitor(object):
         self._start_time = time.time()
         self.start_time = datetime.fromtimestamp(self._start_time)
         self.start_mem = self.measure_mem()
+        self._started = list(self._procs)  # the processes in .start_mem
         return self
 
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
         self.stop_mem = self.measure_mem()
-        self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
+        start_mem = [m1 for m1, proc in zip(self.start_mem, self._started)
+                     if proc in self._procs]
+        self.mem = [m2 - m1 for m1, m2 in zip(start_mem, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
 
-- 
2.43.0


From 82664b90bb650fc667b21a6a2be4f658251b50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 12/45] fix: sampling must never pick a branch of weight zero

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..8df1f1a 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -106,7 +106,7 @@ def sample_one(branches, rnd):
     acc = 0
     for branch in branches:
         acc += branch.weight
-        if acc >= diceroll:
+        if acc >= diceroll and branch.weight > 0:
             return branch
     raise AssertionError('do weights really sum up to 1.0?')
 
-- 
2.43.0


From df407ba937df67afa10cd9a95a97571660ce8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 13/45] fix: a branchset must not replace the children already
 attached in its level

---
 openquake/commonlib/logictree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 8df1f1a..22eb27a 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -556,7 +556,8 @@ class BaseLogicTree(object):
         to branches selectively.
         """
         for branch in self.open_ends:
-            branch.child_branchset = branchset
+            if branch.child_branchset is None:
+                branch.child_branchset = branchset
 
     def validate_tree(self, tree_node, root_branchset):
         """
-- 
2.43.0


From 38c399504ad7196b2cb799aa00887fbb9ad38af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 14/45] fix: a skipped branching level must not cut the logic
 tree

---
 openquake/commonlib/logictree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 22eb27a..767ef7d 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,6 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
+        if not new_open_ends:
+            # all the branchsets have been skipped, the ends are still open
+            return
         self.open_ends.clear()
         self.open_ends.update(new_open_ends)
 
-- 
2.43.0


From 4053a10de2a8efbb893cdff92edd9977b4cc396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 15/45] fix: a gmpe branchset without tectonic region type is a
 validation error

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 767ef7d..67558c2 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1024,8 +1024,8 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        trt = attrs.get('applyToTectonicRegionType')
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From 135d2c98f2dba53ecf5b9263986f444ee6bcfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 16/45] fix: a missing source model is a parsing error

---
 openquake/commonlib/logictree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 67558c2..f90be48 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -929,7 +929,10 @@ class SourceModelLogicTree(BaseLogicTree):
                                for tagname in self.SOURCE_TYPES)
         sourcetype_slice = slice(len('{%s}' % self.NRML), - len('Source'))
 
-        fh = self._get_source_model(source_model)
+        try:
+            fh = self._get_source_model(source_model)
+        except IOError as exc:
+            raise ParsingError(source_model, self.basepath, str(exc))
         eventstream = etree.iterparse(fh, tag='{%s}*' % self.NRML,
                                       schema=self.get_xmlschema())
         while True:
-- 
2.43.0


From f0a623c2b8ad2fd9d2d9a691f54e6f881c82a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 17/45] fix: the branches of a gsim logic tree must be grouped
 by branchset

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index f90be48..1828e58 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1151,9 +1151,10 @@ class GMPELogicTree(BaseLogicTree):
 
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
+# the order inside the branchset is the one of the file (the sort is stable)
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    self.bset['branchSetID'] < other.bset['branchSetID'])
+
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From d7dc898f309ec5306296b8c3909d0cbf78768458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:17 +0000
Subject: [PATCH 18/45] fix: building a SourceCollector from a list of sources
 never ended

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From fa1aa8af4840b78a6e9b784d95dc177109a24698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 19/45] fix: a zero rate must not repeat the previous part of a
 split fault source

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..4818d61 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From ad832b2f7257946adc80fb4439a819523099444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 20/45] fix: the limit for the blocks of sources must not be
 truncated

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 4818d61..27a1438 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / float(num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 48cfbb9c43e54b99db72e43784a89fc4a9e70f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 21/45] fix: the last sources filtered away must be counted

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 27a1438..e7c0f54 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From 73450e214934457960f4eb2f7f451b2f9bf8fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 22/45] fix: the ruptures must not be counted again when the
 blocks are generated again

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index e7c0f54..b730450 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -107,6 +107,7 @@ class SourceCollector(object):
         # NB: as a side effect it throws away the unfiltered sources
         srcs = []
         tot_sources = 0
+        self.num_ruptures = 0  # the ruptures of the parts are counted below
         for src in self.sources:
             sites = src_filter(src)
             if sites is not None:
-- 
2.43.0


From 424450ccd52ab04201af7a44ec6ab332f3bb1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 23/45] fix: the conversion of planar surfaces must not alter
 the NRML objects

---
 openquake/commonlib/source.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index b730450..c0f3004 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -492,9 +492,8 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
-                kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
-
+                kwargs = dict(planar_surface.__dict__,
+                              mesh_spacing=self.rupture_mesh_spacing)
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
 
             surface = geo.MultiSurface(planar_surfaces)
-- 
2.43.0


From 6143aff2a531309b5343a4c3f58282e57be00a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 24/45] fix: a name missing from a zip archive is reported as
 NotInArchive

---
 openquake/commonlib/csvmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..8072272 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 9a26dcc8f4b32bd1a0b66110bf1b4e4aba2c0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 25/45] fix: a name missing from a directory archive is
 reported as NotInArchive

---
 openquake/commonlib/csvmanager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8072272..c86fb2b 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -18,6 +18,7 @@
 
 import os
 import csv
+import errno
 import inspect
 import zipfile
 import StringIO
@@ -195,7 +196,12 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        try:
+            return open(os.path.join(self.name, name), mode)
+        except IOError as exc:
+            if mode.startswith('r') and exc.errno == errno.ENOENT:
+                raise NotInArchive(name)
+            raise
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 06341243a97376cc29305a0644a1336eb2014e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 26/45] fix: the readers of a file in a memory archive are
 independent

---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index c86fb2b..c4e639d 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -228,9 +228,11 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            f = self.dic[name]
         except KeyError:
             raise NotInArchive(name)
+        # every reader has its own position in the file
+        return FileObject(name, f.fileobj.getvalue())
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 23892cddf4e3bc5b7e1907552b98f1314aeef11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 27/45] fix: closing a zip archive completes the zip file

---
 openquake/commonlib/csvmanager.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index c4e639d..37ef0e1 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -138,8 +138,8 @@ class TempFile(FileWrapper):
     ZipArchive objects. It automatically stores the data in the archive
     at file closing time.
     """
-    def __init__(self, arczip, arcname, mode):
-        self.arczip = arczip
+    def __init__(self, archive, arcname, mode):
+        self.archive = archive
         self.name = arcname
         self.fileobj = tempfile.NamedTemporaryFile(mode)
         self.tempname = self.fileobj.name
@@ -149,7 +149,7 @@ class TempFile(FileWrapper):
         if self.closed:  # already closed, do nothing
             return
         self.fileobj.seek(0)  # this is essential
-        self.arczip.write(self.tempname, self.name)  # save in the archive
+        self.archive.zip.write(self.tempname, self.name)  # save it
         self.fileobj.close()  # remove the temporary file
         self.closed = True
 
@@ -159,14 +159,28 @@ class ZipArchive(Archive):
     Thin wrapper over a ZipFile object.
     """
     def __init__(self, zipname, mode='a'):
-        self.zip = zipfile.ZipFile(zipname, mode)
-        self.name = self.zip.filename
+        self._zip = zipfile.ZipFile(zipname, mode)
+        self._reopen_args = zipname, 'r' if mode == 'r' else 'a'
+        self.name = self._zip.filename
         self.opened = set()
 
+    @property
+    def zip(self):
+        """The underlying ZipFile, reopened if the archive was closed"""
+        if self._zip is None:
+            self._zip = zipfile.ZipFile(*self._reopen_args)
+        return self._zip
+
+    def close(self):
+        Archive.close(self)
+        if self._zip is not None:  # write the central directory
+            self._zip.close()
+            self._zip = None
+
     def _open(self, name, mode):
         if mode in ('w', 'w+', 'r+'):
             # write on a temporary file
-            return TempFile(self.zip, name, mode)
+            return TempFile(self, name, mode)
         else:
             # open for reading
             try:
-- 
2.43.0


From f1994601bc56a7c16f6427bae17c375b5a6522b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 28/45] fix: the records of a CSV file can be read more than
 once

---
 openquake/commonlib/csvmanager.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 37ef0e1..642ef43 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -314,7 +314,6 @@ class CSVManager(object):
         self.archive = archive
         self.prefix = prefix
         self.has_header = has_header
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
 
@@ -431,19 +430,17 @@ class CSVManager(object):
         """
         Read the records from the underlying CSV file. Returns an iterator.
         """
-        reader = self.rt2reader.get(recordtype)
-        if reader is None:
-            fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
-            self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
+        fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
+        with self.archive.open(fname, 'r') as f:
+            reader = csv.reader(f)
             if self.has_header:
                 header = reader.next()
                 if header != recordtype.fieldnames:
                     raise InvalidFile(
                         '%s: line 1: got %s as header, expected %s' %
                         (fname, header, recordtype.fieldnames))
-        for row in reader:
-            yield recordtype(*row)
+            for row in reader:
+                yield recordtype(*row)
 
     def readtable(self, recordtype):
         """
@@ -492,7 +489,6 @@ class CSVManager(object):
 
     def __enter__(self):
         """Initialize a few dictionaries"""
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
         self.archive.opened = set()
-- 
2.43.0


From a4b8bac0fba62401e223d6705d6b917b6dd4dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 29/45] fix: a prefix can contain a double underscore

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 642ef43..2f4e595 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -330,7 +330,7 @@ class CSVManager(object):
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-                prefix, recordcsv = fname.split('__')
+                prefix, recordcsv = fname.rsplit('__', 1)
             except ValueError:
                 continue
             if not recordcsv.endswith('.csv'):
-- 
2.43.0


From 28c66b9767c0ca30d67c720898809a51904a6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 30/45] fix: files not named after a record type are ignored

---
 openquake/commonlib/csvmanager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 2f4e595..4b0654a 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -336,8 +336,8 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
-                continue
+            if getattr(recordtype, 'convertername', None) not in ct:
+                continue  # not a record type of some converter
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix)
                 man.convertertype = ct[recordtype.convertername]
-- 
2.43.0


From 5eac3fd2c53cf5337d35408021f80941cdee4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 31/45] fix: the managers of each group of files inherit
 has_header

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 4b0654a..b8187a9 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -339,7 +339,7 @@ class CSVManager(object):
             if getattr(recordtype, 'convertername', None) not in ct:
                 continue  # not a record type of some converter
             if not prefix in managers:
-                man = self.__class__(self.archive, prefix)
+                man = self.__class__(self.archive, prefix, self.has_header)
                 man.convertertype = ct[recordtype.convertername]
                 managers[prefix] = man
         return managers.values()
-- 
2.43.0


From e937c413d25b9227116f62e73846f8f4758d280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 32/45] fix: several groups of files in an archive can be
 converted

---
 openquake/commonlib/csvmanager.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index b8187a9..c304c02 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -344,14 +344,17 @@ class CSVManager(object):
                 managers[prefix] = man
         return managers.values()
 
-    def _getconverter(self):
+    def _getmanager(self):
         """
-        Extract the appropriate converter class to convert the files in
-        the underlying archive. Raise an error is no converter is
-        found (this happens if there are no files following the
-        naming conventions).
+        Extract the manager for the group of files with the given prefix
+        in the underlying archive; without prefix, there must be a single
+        group of files. Raise an error if no manager is found (this happens
+        if there are no files following the naming conventions).
         """
-        managers = self._getmanagers()
+        if self.convertertype is not converter.Converter:
+            return self  # the converter is already known
+        managers = [man for man in self._getmanagers()
+                    if not self.prefix or man.prefix == self.prefix]
         if not managers:
             raise NotInArchive(
                 'Could not determine the right manager '
@@ -360,16 +363,24 @@ class CSVManager(object):
             raise MultipleManagerError(
                 'Found %d managers %s, expected 1' %
                 (len(managers), managers))
-        return managers[0].convertertype
+        return managers[0]
+
+    def _getconverter(self):
+        """
+        Extract the appropriate converter class to convert the files in
+        the underlying archive.
+        """
+        return self._getmanager().convertertype
 
     def get_tableset(self):
         """
         Return a populated TableSet from the underlying CSV files
         """
-        tset = record.TableSet(self._getconverter())
+        man = self._getmanager()
+        tset = record.TableSet(man.convertertype)
         for rectype in tset.convertertype.recordtypes():
             try:
-                tset.insert_all(self.read(rectype))
+                tset.insert_all(man.read(rectype))
             except NotInArchive:
                 # this may happen for optional tables in the tableset
                 continue
-- 
2.43.0


From 666f744b47eab177b1a6efb691075e47817ca5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 33/45] fix: do not lose the occupancies not in the first asset

---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..f9601a9 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -387,10 +387,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # the assets may have different periods
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From fcc4a7f95cacaa241c37113d6a7f27b16a070731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 34/45] fix: the assets of a converted exposure can be read
 more than once

---
 openquake/commonlib/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index f9601a9..103c506 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -391,8 +391,8 @@ class Exposure(Converter):
             periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
-        exp.assets.nodes = self._assetgenerator(
-            t.tableAsset, cost_types, periods)
+        exp.assets.nodes = list(self._assetgenerator(
+            t.tableAsset, cost_types, periods))
         return exp
 
     def _assetgenerator(self, assets, costtypes, periods):
-- 
2.43.0


From aa6f9ac387b02c04717b94414408382c1080e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 35/45] fix: convert exposures without some of the optional
 conversions

---
 openquake/commonlib/converter.py | 42 ++++++++++++++------------------
 openquake/commonlib/records.py   | 15 +++++++-----
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 103c506..fc1f7a7 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -286,34 +286,28 @@ class Exposure(Converter):
         Convert the node into a sequence of Exposure records
         """
         taxonomysource = node.attrib.get('taxonomySource', 'UNKNOWN')
+        conv = Node('conversions')  # the conversions are optional
+        for subnode in node.getnodes('conversions'):
+            conv = subnode
         if node['category'] == 'buildings':
-            for c in node.conversions.costTypes:
+            for c in conv.costTypes:
                 yield records.CostType(c['name'], c['type'], c['unit'],
                                        c.attrib.get('retrofittedType', ''),
                                        c.attrib.get('retrofittedUnit', ''))
-            conv = node.conversions
-            try:
-                area = conv.area
-                area_type = area['type']
-                area_unit = area['unit']
-            except NameError:
-                area_type = ''
-                area_unit = ''
-            yield records.Exposure(
-                node['id'],
-                node['category'],
-                taxonomysource,
-                node.description.text.strip(),
-                area_type,
-                area_unit,
-                conv.deductible['isAbsolute'],
-                conv.insuranceLimit['isAbsolute'])
-        else:
-            yield records.Exposure(
-                node['id'],
-                node['category'],
-                taxonomysource,
-                node.description.text.strip())
+
+        def getattrib(name, attr):  # empty string if the node is missing
+            for subnode in conv.getnodes(name):
+                return subnode[attr]
+            return ''
+        yield records.Exposure(
+            node['id'],
+            node['category'],
+            taxonomysource,
+            node.description.text.strip(),
+            getattrib('area', 'type'),
+            getattrib('area', 'unit'),
+            getattrib('deductible', 'isAbsolute'),
+            getattrib('insuranceLimit', 'isAbsolute'))
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..bbcd90c 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,13 +232,16 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type'] or self['area_unit']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
-            conv.append(Node('deductible', dict(
-                isAbsolute=self['deductible_is_absolute'])))
-            conv.append(Node('insuranceLimit', dict(
-                isAbsolute=self['insurance_limit_is_absolute'])))
+            if self['deductible_is_absolute']:
+                conv.append(Node('deductible', dict(
+                    isAbsolute=self['deductible_is_absolute'])))
+            if self['insurance_limit_is_absolute']:
+                conv.append(Node('insuranceLimit', dict(
+                    isAbsolute=self['insurance_limit_is_absolute'])))
             node.append(conv)
         node.append(Node('assets'))
         return node
-- 
2.43.0


From bf0d6f4fae1fa37df745a7fc0d8d592480a3ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 36/45] fix: the fields of a scenario belong to the event set 0

---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index fc1f7a7..a5f3333 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -446,7 +446,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From c5c8140c3e983781d46ea542ab1e14bd16f3ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 37/45] fix: the GmfSet of a scenario has no investigation time

---
 openquake/commonlib/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index bbcd90c..3c2145a 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -349,7 +349,7 @@ class GmfSet(Record):
     pkey = Unique('stochasticEventSetId')
 
     stochasticEventSetId = Field(int)
-    investigationTime = Field(float)
+    investigationTime = Field(valid.NoneOr(float))
 
     def to_node(self):
         dic = {}
-- 
2.43.0


From 9f3c097d892e7bbf3cef3d6ecfd5e9537770320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 38/45] fix: a directory archive opened in append mode is
 created if missing

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index c304c02..b310aed 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -203,7 +203,7 @@ class DirArchive(Archive):
     def __init__(self, dirname, mode='r'):
         self.name = dirname
         self.mode = mode
-        if mode in ('w', 'w+', 'r+') and not os.path.exists(dirname):
+        if mode in ('w', 'w+', 'r+', 'a') and not os.path.exists(dirname):
             os.mkdir(dirname)
         else:
             assert os.path.exists(dirname), dirname
-- 
2.43.0


From 8cdbe56a508670d7ad7e63d85ea578d1ad26bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 39/45] fix: files named after the abstract record class are
 ignored

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index b310aed..d99c239 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -326,7 +326,8 @@ class CSVManager(object):
         ct = {}  # converter name -> converter type dictionary
         for name, value in vars(converter).iteritems():
             if inspect.isclass(value) and issubclass(
-                    value, converter.Converter):
+                    value, converter.Converter) and \
+                    value is not converter.Converter:
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-- 
2.43.0


From e4ffdb7a5f3b41e8b22f4e8b271d0bbb7539115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 40/45] fix: the script can read the CSV files of a zip archive

---
 bin/NRMLconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index 2d2b0a8..aff9e88 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -62,7 +62,7 @@ def main(input, output=None, limit=None):
         print_invalid(man, limit)
         return
     # csv -> nrml
-    inp_archive = mkarchive(input, 'r+')
+    inp_archive = mkarchive(input, 'r' if output else 'a')
     man = CSVManager(inp_archive, os.path.basename(input))
     print_invalid(man, limit)
     out_archive = mkarchive(output, 'a') if output else inp_archive
-- 
2.43.0


From 0cee02f6f7beac2ad3759738a985b6ffba025fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 41/45] fix: the script closes the output archive

---
 bin/NRMLconvert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/NRMLconvert.py b/bin/NRMLconvert.py
index aff9e88..a06ce9a 100644
--- a/bin/NRMLconvert.py
+++ b/bin/NRMLconvert.py
@@ -66,7 +66,9 @@ def main(input, output=None, limit=None):
     man = CSVManager(inp_archive, os.path.basename(input))
     print_invalid(man, limit)
     out_archive = mkarchive(output, 'a') if output else inp_archive
-    create(lambda n: man.convert_to_nrml(out_archive), os.path.basename(input))
+    with out_archive:  # closed at the end, or a zip would be incomplete
+        create(lambda n: man.convert_to_nrml(out_archive),
+               os.path.basename(input))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1d8261bddcc6168a9f39bfb77bd7b980b9d9214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 42/45] fix: whitespace around the name of a source model is
 not part of it

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From 17ca36d0fc0cbc51898ca6e157d49838b46aa173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 43/45] fix: inherited unique constraints must be enforced by
 the tables of a derived type

---
 openquake/commonlib/record.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index f753dd1..123088e 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -200,7 +200,10 @@ class MetaRecord(abc.ABCMeta):
     def __init__(cls, name, bases, dic):
         if name != 'Record':
             cls.pkey  # raise an AttributeError if pkey is not defined
-        for n, v in dic.iteritems():
+        attrs = {}  # including the inherited constraints
+        for klass in reversed(cls.__mro__):
+            attrs.update(vars(klass))
+        for n, v in attrs.iteritems():
             # make a bound copy of the unbound Unique and ForeignKey constraint
             if isinstance(v, Unique):
                 unique = Unique(*v.names)
-- 
2.43.0


From 09740579a054ef90117f036437c215f68dca3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 44/45] fix: deep comparison of objects with slots, unset or
 inherited ones included

---
 openquake/commonlib/general.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 15744cd..c30a226 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -23,6 +23,7 @@ Utility functions of general interest.
 
 import os
 import math
+import copy_reg
 import tempfile
 import collections
 
@@ -254,6 +255,17 @@ def deep_eq(a, b, decimal=7, exclude=None):
     return True, ''
 
 
+def _attributes(obj):
+    """Return a dictionary with the attributes of the object, including the
+    ones kept in slots, if they are set.
+    """
+    attrs = dict((name, getattr(obj, name))
+                 for name in copy_reg._slotnames(type(obj))
+                 if hasattr(obj, name))
+    attrs.update(getattr(obj, '__dict__', {}))
+    return attrs
+
+
 def _deep_eq(a, b, decimal, exclude=None):
     """Do the actual deep comparison. If the two items up for comparison are
     not equal, a :exception:`AssertionError` is raised (to
@@ -293,11 +305,11 @@ def _deep_eq(a, b, decimal, exclude=None):
     elif isinstance(a, dict):
         assert isinstance(b, dict), "%r is not a dictionary" % (b,)
         _test_dict(a, b)
-    # objects with a __dict__
+    # objects with a __dict__ (and perhaps __slots__)
     elif hasattr(a, '__dict__'):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
-        _test_dict(a.__dict__, b.__dict__)
+        _test_dict(_attributes(a), _attributes(b))
     # iterables (not strings)
     elif isinstance(a, collections.Iterable) and not isinstance(
             a, basestring):
@@ -310,11 +322,7 @@ def _deep_eq(a, b, decimal, exclude=None):
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
-        assert a.__slots__ == b.__slots__, (
-            "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
-        for slot in a.__slots__:
-            if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
+        _test_dict(_attributes(a), _attributes(b))
     else:
         # Objects must be primitives
 
-- 
2.43.0


From e75a23c70de1a297ca0aefcb09c779b240ff7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 45/45] fix: the performance monitor survives the end of a
 process it watches

---
 openquake/commonlib/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index b393447..d7fd343 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -329,8 +329,8 @@ class PerformanceMonitor(object):
         for proc in list(self._procs):
             try:
                 rss = proc.get_memory_info().rss
-            except psutil.AccessDenied:
-                # no access to information about this process
+            except (psutil.AccessDenied, psutil.NoSuchProcess):
+                # no access to information about this process, or it ended
                 # don't not try to check it anymore
                 self._procs.remove(proc)
             else:
-- 
2.43.0

