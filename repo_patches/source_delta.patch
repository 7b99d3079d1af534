From f3b7771f4a26a124948a5d66699f1978ffd56bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 01/36] fix: reference lists clear, sort, reverse, search and
 slice like lists

clear(), sort() and reverse() did nothing; remove(), index(), count(), in,
slices and reversed() saw unresolved references instead of objects; pop()
lost the entry when loading it failed; += skipped modification tracking.
---
 src/avb/core.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..f2d3e38 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -90,26 +90,33 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
-        self.mark_modified()
+        del self[self.index(x)]
 
     def pop(self, i=-1):
-        result = self.deref(super(AVBRefList, self).pop(i))
-        self.mark_modified()
+        result = self[i]
+        del self[i]
         return result
 
     def clear(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__delitem__(slice(None))
         self.mark_modified()
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
+        items = sorted(self, key=key, reverse=reverse)
+        super(AVBRefList, self).__setitem__(slice(None), items)
         self.mark_modified()
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
+    # stored entries may be unresolved references, compare what they refer to
+    def index(self, x, *args):
+        return list(self).index(x, *args)
+
+    def count(self, x):
+        return list(self).count(x)
+
     def deref(self, value):
         if isinstance(value, INT_FORMAT):
             return utils.AVBObjectRef(self.root, value).value
@@ -119,7 +126,10 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        result = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(value) for value in result]
+        return self.deref(result)
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
@@ -133,6 +143,17 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
+    def __contains__(self, x):
+        return any(value is x or value == x for value in self)
+
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From 1c23de9c269fe08494ab9e8363a9a4b093861185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 02/36] fix: attribute collections resolve object values in
 values, pop, popitem and setdefault

values(), pop(), popitem() and (on PyPy) setdefault() handed out unresolved
references, and popitem() and move_to_end() skipped modification tracking,
so such an edit was lost when the collection was dropped from the cache.
---
 src/avb/attributes.py |  4 ++++
 src/avb/core.py       | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..15c59bc 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -50,6 +50,10 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index f2d3e38..aa5741c 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -46,9 +46,31 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for key, value in self.items():
+            yield value
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def pop(self, key, *args):
+        if key not in self:
+            return super(AVBPropertyData, self).pop(key, *args)
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        if not self:
+            raise KeyError('dictionary is empty')
+        key = next(reversed(self) if last else iter(self))
+        return key, self.pop(key)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
-- 
2.43.0


From 52a706a4a6f1d9d68183700657fddbd4d65c653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 03/36] fix: close the file when opening it fails

A file opened by path stayed open when it was not a bin, its header was
damaged or its root object could not be read.
---
 src/avb/file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..4d47b93 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -120,9 +120,17 @@ class AVBFile(object):
 
         if is_fileobject_like(fileobject):
             self.f = fileobject
-        else:
-            self.f = io.open(fileobject, 'rb', buffering=buffering)
+            self.read_header(use_ext)
+            return
+
+        self.f = io.open(fileobject, 'rb', buffering=buffering)
+        try:
+            self.read_header(use_ext)
+        except:
+            self.f.close()
+            raise
 
+    def read_header(self, use_ext=True):
         f = self.f
         file_bytes = f.read(2)
         self.fast_readers = {}
-- 
2.43.0


From 018d917b97bc9a7fb5b81d7d05b906fcffe8c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 04/36] fix: keep the existing file until a save is complete

Saving truncated the destination first, so an error or crash during a save
destroyed the previous file, and saving over the opened file destroyed the
objects that were not loaded yet. Write beside the destination, sync and
rename over it.
---
 src/avb/file.py  |  2 +-
 src/avb/utils.py | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 4d47b93..c374f1c 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -359,7 +359,7 @@ class AVBFile(object):
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
         try:
-            with io.open(path, 'wb') as f:
+            with utils.open_replacing(path) as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
                     if obj.instance_id in self.ref_mapping:
diff --git a/src/avb/utils.py b/src/avb/utils.py
index 622e873..b41ef85 100644
--- a/src/avb/utils.py
+++ b/src/avb/utils.py
@@ -6,8 +6,11 @@ from __future__ import (
 )
 
 import struct
+import io
 from io import BytesIO
+from contextlib import contextmanager
 import os
+import shutil
 from uuid import UUID, uuid4
 from binascii import hexlify, unhexlify
 
@@ -93,6 +96,40 @@ def unpack_u32le_from(buffer, offset):
     value += buffer[offset+3] << 24
     return value
 
+@contextmanager
+def open_replacing(path):
+    """
+    Open path for writing. The file takes the place of an existing one when the
+    block is done, if anything fails before that the existing one is untouched.
+    """
+    if os.path.exists(path) and not os.path.isfile(path):
+        # pipes and devices can only be written in place
+        with io.open(path, 'wb') as f:
+            yield f
+        return
+
+    path = os.path.realpath(path)
+    temp_name = u".%s.tmp" % uuid4().hex
+    if isinstance(path, bytes):
+        temp_name = temp_name.encode('ascii')
+    temp_path = os.path.join(os.path.dirname(path), temp_name)
+    f = io.open(temp_path, 'wb')
+    try:
+        with f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        getattr(os, 'replace', os.rename)(temp_path, path)
+    except:
+        try:
+            os.remove(temp_path)
+        except OSError:
+            pass
+        raise
+
 def generate_uid():
     v = uuid4().int & (1<<64)-1
     return v
-- 
2.43.0


From ee417ae4c3b688fdf71866e8352328e785528166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 05/36] fix: refuse an object of another file even if its id is
 already in use

A foreign object whose instance id equals that of an object already written
was stored as a reference to that unrelated object.
---
 src/avb/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index c374f1c..7fd9d7b 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -362,6 +362,10 @@ class AVBFile(object):
             with utils.open_replacing(path) as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
+                    # instance ids are only unique within one file
+                    if obj.root is not self:
+                        raise ValueError("object is from different file: " + str(obj))
+
                     if obj.instance_id in self.ref_mapping:
                         continue
 
-- 
2.43.0


From 2d229ad9bec3cc745e42dc8686ee32e7ecd82485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 06/36] fix: do not allocate memory from unchecked sizes in a
 damaged file

---
 src/avb/file.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 7fd9d7b..36d5c05 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -177,16 +177,16 @@ class AVBFile(object):
 
         self.root_chunk = AVBChunk(self, b'OBJD', pos, f.tell() - pos)
 
-        self.object_positions = array.array(str('L'), [0 for i in range(num_objects+1)])
-        self.next_object_id = len(self.object_positions)
+        self.object_positions = array.array(str('L'), [0])
 
         for i in range(num_objects):
-            self.object_positions[i+1] = f.tell()
+            self.object_positions.append(f.tell())
             class_id = f.read(4)
             size = ctx.read_u32(f)
 
             f.seek(size, os.SEEK_CUR)
 
+        self.next_object_id = len(self.object_positions)
         self.content = self.read_object(self.root_index)
 
     def setup_empty(self):
@@ -286,9 +286,8 @@ class AVBFile(object):
         else:
             class_id, size = struct.unpack(b">4sI", f.read(8))
 
-        data = bytearray(size)
-        bytes_read = f.readinto(data)
-        assert bytes_read == size
+        data = bytearray(f.read(size))
+        assert len(data) == size
 
         obj_class = utils.AVBClaseID_dict.get(class_id, None)
         if obj_class:
-- 
2.43.0


From c67debf45ac8fe03d9b748a21a47115488bfe524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 07/36] fix: do not share list defaults between objects

---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..fb6567c 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend(dict(d) for d in default_bin_columns)
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index aa5741c..70a5a4b 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 from . import utils
@@ -222,7 +223,8 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            # defaults can be lists, every object needs its own
+            self.__setattr__(pdef.name, copy.deepcopy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From c5b69c35870e3f9602d7e96c51b8b32bba262ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 08/36] fix: a copied object shares no values with the original
 and has the same properties

---
 src/avb/attributes.py |  2 ++
 src/avb/core.py       | 35 +++++++++++++++++------------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 15c59bc..8a168b2 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -65,6 +65,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = None
             else:
                 obj[key] = value.copy(root)
         return obj
diff --git a/src/avb/core.py b/src/avb/core.py
index 70a5a4b..d157b57 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -97,7 +97,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -207,6 +207,17 @@ def walk_references(obj):
         yield obj
 
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    if isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    if isinstance(value, dict):
+        return dict((key, copy_value(item, root)) for key, item in value.items())
+    if isinstance(value, utils.AVBObjectRef):
+        return value
+    return copy.deepcopy(value)
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -265,24 +276,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # only what this object has, not what a new one starts with
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent is not None:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 34994714aed3e1a627e9d34f34d33bd3708f95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 09/36] fix: a new composition keeps the name it is given and
 refuses unknown mob types

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..cbc303e 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1038,7 +1038,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From c0a4f839b5f0557824d7f45a7b3938ae3c01d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/36] fix: mob lookup and iteration follow changes to the bin

---
 src/avb/bin.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index fb6567c..76cab69 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -216,7 +216,7 @@ class Bin(core.AVBObject):
         AVBPropertyDef('attributes',       'BinAttr',        'reference'),
         AVBPropertyDef('was_iconic',       'WasIconic',      'bool',      False),
     ]
-    __slots__ = ('_mob_dict')
+    __slots__ = ('_mob_dict', '_indexed_items')
 
     def __init__(self):
         super(Bin, self).__init__(self)
@@ -232,7 +232,8 @@ class Bin(core.AVBObject):
             self.sifted_settings.append(s)
 
         self.attributes = self.root.create.Attributes()
-        self._mob_dict ={}
+        self._mob_dict = {}
+        self._indexed_items = []
 
     def read(self, f):
         super(Bin, self).read(f)
@@ -256,7 +257,8 @@ class Bin(core.AVBObject):
             object_count = ctx.read_u32(f)
 
         self.items = []
-        self._mob_dict ={}
+        self._mob_dict = {}
+        self._indexed_items = []
 
         for i in range(object_count):
             bin_obj = BinItem.__new__(BinItem, root=self.root)
@@ -370,28 +372,42 @@ class Bin(core.AVBObject):
             ctx.write_u8(f, 0x03)
 
     def find_by_mob_id(self, mob_id):
-
-        # build mob_id dictionary
-        if not self._mob_dict:
-            for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
-
-        return self._mob_dict.get(mob_id, None)
+        mob = self._lookup_mob(mob_id)
+        if mob is None:
+            # the bin can have changed since the dictionary was built
+            self._index_mobs()
+            mob = self._lookup_mob(mob_id)
+        return mob
+
+    def _lookup_mob(self, mob_id):
+        item, mob = self._mob_dict.get(mob_id, (None, None))
+        if mob is None or item.mob is not mob or mob.get('mob_id', None) != mob_id:
+            return None
+        # same items as when the dictionary was built?
+        if self._indexed_items != self.items:
+            return None
+        return mob
+
+    def _index_mobs(self):
+        self._mob_dict = {}
+        self._indexed_items = list(self.items)
+        for item in self._indexed_items:
+            mob = item.mob
+            if mob is not None and mob.get('mob_id', None) is not None:
+                self._mob_dict[mob.mob_id] = (item, mob)
 
     def add_mob(self, mob):
         bin_item = self.root.create.BinItem()
         bin_item.mob = mob
         self.items.append(bin_item)
-
-        if self._mob_dict:
-            self._mob_dict[mob.mob_id] = mob
-
         return bin_item
 
     @property
     def mobs(self):
         for item in self.items:
-            yield item.mob
+            mob = item.mob
+            if mob is not None:
+                yield mob
 
     def toplevel(self):
         for mob in self.mobs:
-- 
2.43.0


From 6d2e35dc7476eb25c1d65e67076b06f7d60851b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 11/36] fix: listing dependent mobs ends when mobs refer to
 each other

---
 src/avb/trackgroups.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index cbc303e..a582749 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -230,28 +230,29 @@ class TrackGroup(Component):
             Yields all mobs that this mob is dependant on in depth first order.
         """
 
-        visited = set()
-        stack = [self]
-
-        while stack:
-            mob = stack[-1]
-            children_processed = True
-
+        def source_mobs(mob):
             for obj in walk_references(mob):
                 if isinstance(obj, SourceClip):
                     ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
+                    if ref_mob:
+                        yield ref_mob
+
+        # mobs can refer to each other, or to them self
+        visited = set([self.get('mob_id', None)])
+        stack = [(self, source_mobs(self))]
 
-            if children_processed:
+        while stack:
+            mob, sources = stack[-1]
+
+            for ref_mob in sources:
+                if ref_mob.mob_id not in visited:
+                    visited.add(ref_mob.mob_id)
+                    stack.append((ref_mob, source_mobs(ref_mob)))
+                    break
+            else:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
+                if mob is not self:
+                    yield mob
 
 
 @utils.register_class
-- 
2.43.0


From 6bde067bfc72c643465edc26628a234bda62e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 12/36] fix: decimal rates survive saving exactly

---
 src/avb/ioctx.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..12c969b 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -14,7 +14,7 @@ from .utils import AVBObjectRef
 from .mobid import MobID
 
 exp10_pretty = {
-5994: (59940, -3),
+(5994, -2): (59940, -3),
 }
 
 class AVBIOContext(object):
@@ -132,22 +132,23 @@ class AVBIOContext(object):
         return float(mantissa) * pow(10, exp10)
 
     def write_exp10_encoded_float(self, f, value):
-        exponent = 0
-        while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
+        # find the shortest decimal that reads back as the same value,
+        # settle for six decimals if there is none
+        mantissa, exponent = int(round(value)), 0
+        for i in range(31):
+            m = int(round(value * 10 ** i))
+            if abs(m) > 0x7FFFFFFF:
                 break
-            if exponent <= -6:
+            exact = abs(float(m) * pow(10, -i) - value) <= abs(value) * 1e-14
+            if exact or i <= 6:
+                mantissa, exponent = m, -i
+            if exact:
                 break
-            value *= 10
-            exponent -= 1
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
-        else:
-            self.write_s32(f, int(value))
-            self.write_s16(f, exponent)
+        mantissa, exponent = exp10_pretty.get((mantissa, exponent), (mantissa, exponent))
+        self.write_s32(f, mantissa)
+        self.write_s16(f, exponent)
 
 
     def read_string(self, f, encoding = 'macroman'):
-- 
2.43.0


From 8706401abbd9b98be0bbf8c879d5d77a5bade747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 13/36] fix: AudioSuite mob ids and subframe alignments of any
 value can be saved

---
 src/avb/essence.py     | 2 +-
 src/avb/trackgroups.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..c9bbf49 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index a582749..d4eca67 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -573,9 +573,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From ebdc28cd34042b52dba5e8edfaf0de909f3a7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 14/36] fix: data descriptors have an end tag

---
 src/avb/essence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index c9bbf49..38126e7 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -1337,6 +1337,9 @@ class DataDescriptor(MediaFileDescriptor):
         self.min_sample_size = ctx.read_s32(f)
         self.max_sample_size = ctx.read_s32(f)
 
+        if self.class_id[:] == b'DATD':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(DataDescriptor, self).write(f)
         ctx = self.root.octx
@@ -1349,6 +1352,9 @@ class DataDescriptor(MediaFileDescriptor):
         ctx.write_s32(f, self.min_sample_size)
         ctx.write_s32(f, self.max_sample_size)
 
+        if self.class_id[:] == b'DATD':
+            ctx.write_u8(f, 0x03)
+
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
-- 
2.43.0


From d5b7d89c8217e53e5fa4b2f3e812a4790752af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 15/36] fix: refuse a string that is too long instead of
 writing a damaged record

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 12c969b..5bc3066 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -171,6 +171,9 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # 65535 is how a missing string is stored
+        if size >= 65535:
+            raise ValueError("string is too long: %d bytes" % size)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From 913c3792e2ea5f8cc8f61f373b9ce961fa1aafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 16/36] fix: times in the repeated hour at the end of daylight
 saving survive saving

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 5bc3066..aa8388a 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        # times that occur twice when clocks are set back are told apart by fold
+        if hasattr(d, 'timestamp'):
+            return int(d.timestamp())
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From 1baa7900d90108c86366f08f879a75e3dedc22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 17/36] fix: a bin reference without a UTF-8 name can be saved

---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From 505b51ad727871a2dcdd53badf4963156b1a2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 18/36] fix: files can be read when assert statements are
 disabled

---
 src/avb/essence.py |  6 ++++--
 src/avb/file.py    | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 38126e7..7f7a128 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -251,7 +251,8 @@ class WaveDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x02)
         ctx.read_assert_tag(f, 0x01)
 
-        assert f.read(4) == b'RIFF'
+        if f.read(4) != b'RIFF':
+            raise ValueError("bad RIFF header")
 
         # NOTE: this is suppose to be LE
         size = ctx.read_u32le(f)
@@ -284,7 +285,8 @@ class AIFCDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x02)
         ctx.read_assert_tag(f, 0x01)
 
-        assert f.read(4) == b'FORM'
+        if f.read(4) != b'FORM':
+            raise ValueError("bad FORM header")
 
         # NOTE: this is suppose to be BE
         size = ctx.read_u32be(f)
diff --git a/src/avb/file.py b/src/avb/file.py
index 36d5c05..6243442 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -151,9 +151,13 @@ class AVBFile(object):
 
         pos = f.tell()
 
-        assert ctx.read_fourcc(f) == b'OBJD'
-        assert ctx.read_string(f) == u'AObjDoc'
-        assert ctx.read_u8(f) == 0x04
+        # not assert statements, these have to read when python runs with -O
+        if ctx.read_fourcc(f) != b'OBJD':
+            raise ValueError("bad document header")
+        if ctx.read_string(f) != u'AObjDoc':
+            raise ValueError("bad document header")
+        if ctx.read_u8(f) != 0x04:
+            raise ValueError("bad document header")
 
         last_save_str = ctx.read_string(f)
         num_objects = ctx.read_u32(f)
@@ -167,8 +171,10 @@ class AVBFile(object):
         # skip 4 bytes
         f.read(4)
 
-        assert ctx.read_fourcc(f) == b'ATob'
-        assert ctx.read_fourcc(f) == b'ATve'
+        if ctx.read_fourcc(f) != b'ATob':
+            raise ValueError("bad document header")
+        if ctx.read_fourcc(f) != b'ATve':
+            raise ValueError("bad document header")
 
         self.creator_version = ctx.read_string(f)
 
@@ -287,7 +293,8 @@ class AVBFile(object):
             class_id, size = struct.unpack(b">4sI", f.read(8))
 
         data = bytearray(f.read(size))
-        assert len(data) == size
+        if len(data) != size:
+            raise ValueError("object %d is cut off" % index)
 
         obj_class = utils.AVBClaseID_dict.get(class_id, None)
         if obj_class:
-- 
2.43.0


From 9c715d69e3372b30212d41ea43f472a6e4527eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 19/36] fix: the compiled reader checks its bounds and reads
 the same values as the Python reader

---
 src/avb/_ext.pyx      | 129 ++++++++++++++++++++++++------------------
 src/avb/_ext_core.cpp |  91 +++++++++++++++++++----------
 2 files changed, 137 insertions(+), 83 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..8785c29 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -35,6 +35,7 @@ cdef extern from "" namespace "Properties":
 cdef extern from "_ext_core.cpp" nogil:
     cdef enum StringType:
         MACROMAN,
+        MACROMAN_OR_NONE,
         UTF8
 
     cdef enum PropertyType:
@@ -138,6 +139,7 @@ cdef extern from "_ext_core.cpp" nogil:
         vector[IntArrayData] arrays
         vector[BytesData] bytearrays
 
+    cdef int read_end(Buffer *f)
     cdef int read_attributes(Buffer *f, vector[AttrData] &d) except+
     cdef int read_comp(Buffer *f, Properties *p) except+
     cdef int read_sequence(Buffer *f, Properties *p) except+
@@ -154,6 +156,13 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef int read_cdci_descriptor(Buffer *f, Properties *p) except+
     cdef int read_effectparamlist(Buffer *f, Properties *p) except+
 
+cdef int check_result(Buffer *buf, int ret, name) except -1:
+    if ret < 0 or buf.error_message[0] != 0:
+        raise ValueError("Error reading %s: %s" % (name, buf.error_message.decode("utf-8")))
+    if buf.ptr != buf.end + 1:
+        raise ValueError("Error reading %s: unexpected data after the end" % name)
+    return 0
+
 cdef class AVBPropertyData(dict):
 
     def deref(self, value):
@@ -171,21 +180,27 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef object object_ref(object root, uint32_t index):
+    ref = AVBObjectRef(root, index)
+    if root.check_refs and not ref.valid:
+        raise ValueError("bad index: %d" % index)
+    return ref
+
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
-        reflist.extend(item.data)
+        reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -212,15 +227,15 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -230,7 +245,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
@@ -244,7 +259,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -253,23 +268,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -281,7 +296,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -292,7 +307,7 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef const char * ptr
 
     cdef StringData item
@@ -303,11 +318,15 @@ cdef void strings2dict(dict d, Properties *p):
 
         if data_size > 0:
             ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
+            value = ptr[:data_size].strip(b'\x00').decode("macroman")
         else:
-            d[item.name.decode('utf-8')] = u""
+            value = u""
 
-cdef void children2dict(object root, dict d, Properties *p):
+        if item.type == MACROMAN_OR_NONE:
+            value = value or None
+        d[item.name.decode('utf-8')] = value
+
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -331,7 +350,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -343,7 +362,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -351,7 +370,10 @@ cdef void bytearray2dict(dict d, Properties *p):
         size = item.data.size()
         if size:
             ptr = &item.data[0]
-            d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
+            if item.name == b'compress_method':
+                d[item.name.decode('utf-8')] = <bytes> ptr[:size]
+            else:
+                d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
@@ -407,8 +429,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_attributes(&buf, d)
 
-    if ret < 0:
-        raise ValueError("Error reading Attributes: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "Attributes")
 
     for item in d:
 
@@ -421,12 +442,12 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             data_size = item.data.size()
             if data_size > 0:
                 ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
+                value = ptr[:data_size].strip(b'\x00').decode('macroman')
             else:
                 value = ""
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
@@ -437,8 +458,12 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
                 value = bytearray()
 
         data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        if data_size > 0:
+            ptr =  <const char *>&item.name[0]
+            name = ptr[:data_size].strip(b'\x00').decode('macroman')
+        else:
+            name = u""
+        object_instance[name] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
@@ -465,11 +490,13 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_sequence(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "SEQU")
 
     cdef dict result = process_poperties(root, &p)
 
+    # so that changing the list marks the sequence as modified
+    result['components'].parent = object_instance
+
     object_instance.property_data = result
 
 def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
@@ -484,8 +511,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_sourceclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "SCLP")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -505,8 +531,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(6)
         ret = read_paramclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "PRCL")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -525,8 +550,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_paramitem(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "PRIT")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -545,8 +569,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_trackref(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "TRKR")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -564,8 +587,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_filler(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "FILL")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -583,8 +605,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_selector(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "SLCT")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -605,8 +626,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         p.strings.reserve(2)
         ret = read_composition(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "CMPO")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -624,9 +644,10 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
     cdef int ret
     with nogil:
         ret = read_media_descriptor(&buf, &p)
+        if ret >= 0:
+            ret = read_end(&buf)
 
-    if ret < 0:
-        raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "MDES")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -644,9 +665,10 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
     cdef int ret
     with nogil:
         ret = read_did_descriptor(&buf, &p)
+        if ret >= 0:
+            ret = read_end(&buf)
 
-    if ret < 0:
-        raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "DIDD")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -666,8 +688,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
     with nogil:
         ret = read_cdci_descriptor(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "CDCI")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -687,9 +708,10 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
         p.refs.reserve(8)
         p.ints.reserve(12)
         ret = read_trackeffect(&buf, &p)
+        if ret >= 0:
+            ret = read_end(&buf)
 
-    if ret < 0:
-        raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "TKFX")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -708,8 +730,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     with nogil:
         ret = read_effectparamlist(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
+    check_result(&buf, ret, "FXPS")
 
     cdef dict result = process_poperties(root, &p)
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..5506116 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -44,6 +44,7 @@ struct Buffer {
 
 enum StringType {
     MACROMAN,
+    MACROMAN_OR_NONE,
     UTF8,
 };
 
@@ -169,9 +170,15 @@ static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
+    f->error_message = "unexpected end of data";
     return 0;
 }
 
+static inline size_t bytes_left(const Buffer *f)
+{
+    return f->end + 1 - f->ptr;
+}
+
 #define S1(x) #x
 #define S2(x) S1(x)
 #define ASSERT_MESSAGE "Assert error: " __FILE__ " : " S2(__LINE__)
@@ -187,6 +194,13 @@ static inline uint8_t read_u8(Buffer *f)
         return -1; \
     } \
 
+// refuse an item count the remaining data can't hold, before allocating for it
+#define check_count(f, count, item_size) \
+    if ((uint64_t)(count) * (item_size) > bytes_left(f)) { \
+        f->error_message = ASSERT_MESSAGE; \
+        return -1; \
+    } \
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -232,6 +246,10 @@ static inline double read_exp10_encoded_float(Buffer *f)
 static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    if (size > bytes_left(f)) {
+        f->error_message = "unexpected end of data";
+        return;
+    }
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
@@ -242,6 +260,10 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
 {
     uint16_t size = read_u16le(f);
     if (size < 65535) {
+        if (size > bytes_left(f)) {
+            f->error_message = "unexpected end of data";
+            return;
+        }
         s.resize(size);
         for(int i =0; i < size; i++) {
             s[i] = read_u8(f);
@@ -261,11 +283,10 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
+     if (bytes_left(f) > 0 && *f->ptr == 0x01) {
+        f->ptr++;
         return true;
-
-     f->ptr--;
+     }
      return false;
 }
 
@@ -428,12 +449,12 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN_OR_NONE);
+    add_string(p, f, "effect_id", MACROMAN_OR_NONE);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
@@ -458,11 +479,12 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
     uint32_t count = read_u32le(f);
+    check_count(f, count, 4);
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
@@ -477,7 +499,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -487,7 +509,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -497,7 +519,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -513,7 +535,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -529,7 +551,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -539,6 +561,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
+    check_count(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -570,6 +593,7 @@ static int read_paramclip(Buffer *f, Properties *p)
         }
 
         uint16_t pp_count = read_u16le(f);
+        check_count(f, pp_count, 8);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -658,7 +682,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -671,7 +695,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -680,6 +704,9 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
     int32_t track_count =  (int32_t)read_u32le(f);
+    if (track_count < 0)
+        track_count = 0;
+    check_count(f, track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -751,7 +778,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -789,7 +816,7 @@ static int read_trackeffect(Buffer *f, Properties *p)
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -803,7 +830,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -814,7 +841,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -825,7 +852,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -894,7 +921,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -922,6 +949,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
     size_t line_map_byte_size = read_u32le(f);
+    check_count(f, line_map_byte_size, 1);
     for (size_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
@@ -1102,13 +1130,13 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
@@ -1148,6 +1176,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
     uint32_t parameter_count = read_u32le(f);
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
+    check_count(f, parameter_count, 102);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -1200,6 +1229,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
         uint32_t color_count =read_u32le(f);
+        check_count(f, color_count, 4);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
@@ -1208,6 +1238,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         }
 
         uint32_t param_size = read_u32le(f);
+        check_count(f, param_size, 1);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
         user_param.resize(param_size);
         for (size_t j=0; j < param_size; j++) {
@@ -1230,14 +1261,11 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_count(f, attr_count, 8);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1258,9 +1286,14 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
     return 0;
 }
+
+static int read_end(Buffer *f)
+{
+    read_assert_tag(f, 0x03);
+    return 0;
+}
-- 
2.43.0


From c210bf844cc4cc7bdfc63608f4e9f1db3d67eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 20/36] fix: changes inside lists and other values of an object
 are not lost when it is dropped

---
 src/avb/components.py |  7 +++----
 src/avb/core.py       | 11 +++++++++++
 src/avb/file.py       |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..631bbcb 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -313,10 +313,9 @@ class SourceClip(Clip):
 
     @property
     def mob(self):
-        if hasattr(self, 'mob_id'):
-            mob_id = self.mob_id
-            if mob_id:
-                return self.root.content.find_by_mob_id(self.mob_id)
+        mob_id = self.get('mob_id', None)
+        if mob_id:
+            return self.root.content.find_by_mob_id(mob_id)
 
     @property
     def track(self):
diff --git a/src/avb/core.py b/src/avb/core.py
index d157b57..6d286a3 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -9,6 +9,7 @@ import copy
 import sys
 from collections import OrderedDict
 from . import utils
+from . import mobid
 
 sentinel = object()
 
@@ -241,6 +242,14 @@ class AVBObject(object):
         if not self.root.reading and hasattr(self, 'instance_id'):
             self.root.add_modified(self)
 
+    def keep_alive(self, value):
+        # changes made inside of value, a track for example, go unnoticed.
+        # keep this object from being dropped and read again without them
+        if isinstance(value, (AVBRefList, AVBPropertyData)):
+            return
+        if hasattr(self, 'instance_id') and not self.root.reading and self.root.octx is None:
+            self.root.accessed_objects[self.instance_id] = self
+
     def get_property_def(self, name):
         for item in self.propertydefs:
             if item.name == name:
@@ -264,6 +273,8 @@ class AVBObject(object):
     def __getattr__(self, name):
         v = self.property_data.get(name, sentinel)
         if v is not sentinel:
+            if isinstance(v, (list, dict, bytearray, mobid.MobID)):
+                self.keep_alive(v)
             return v
 
         raise AttributeError("'%s' has no attribute '%s'" % (self.__class__.__name__, name))
diff --git a/src/avb/file.py b/src/avb/file.py
index 6243442..be3024f 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -109,6 +109,7 @@ class AVBFile(object):
         self.create = AVBFactory(self)
         self.object_cache = WeakValueDictionary()
         self.modified_objects = {}
+        self.accessed_objects = {}
         self.next_object_id = 0
 
         self.octx = None
-- 
2.43.0


From c93a28bca4606f5b7b423760dc0da6ec0fd0ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:02 +0000
Subject: [PATCH 21/36] fix: changes inside bytes attributes are not lost when
 the attributes are dropped

---
 src/avb/attributes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 8a168b2..0b1e8a8 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -33,6 +33,16 @@ class Attributes(AVBPropertyData):
         if not self.root.reading:
             self.root.add_modified(self)
 
+    def deref(self, value):
+        # changes made inside of a bytearray go unnoticed, don't lose them
+        if isinstance(value, bytearray):
+            self.keep_alive()
+        return super(Attributes, self).deref(value)
+
+    def keep_alive(self):
+        if hasattr(self, 'instance_id') and not self.root.reading and self.root.octx is None:
+            self.root.accessed_objects[self.instance_id] = self
+
     def __setitem__(self, key, value):
         super(Attributes, self).__setitem__(key, value)
         self.mark_modified()
-- 
2.43.0


From f4c4a5ed2dfa54d97eaecbfe91129b01ecb6c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:02 +0000
Subject: [PATCH 22/36] fix: refuse to save effects that cannot be read back

---
 src/avb/trackgroups.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index d4eca67..3975633 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -543,6 +543,10 @@ class AudioSuitePluginEffect(TrackEffect):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # the only count that can be read back
+        if len(self.plugins) != 1:
+            raise ValueError("AudioSuite effects have one plugin, not %d" % len(self.plugins))
+
         ctx.write_s32(f, len(self.plugins))
         for plugin in self.plugins:
             ctx.write_string(f, plugin.name)
@@ -1013,6 +1017,10 @@ class Selector(TrackGroup):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # would not be read back
+        if self.selected >= len(self.tracks):
+            raise ValueError("selected track %d of %d" % (self.selected, len(self.tracks)))
+
         ctx.write_bool(f, self.is_ganged)
         ctx.write_u16(f, self.selected)
 
-- 
2.43.0


From 1d3d621143db837c892295928ce40c3722807217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 23/36] fix: the order of saved records does not depend on the
 reader that was used

---
 src/avb/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 6d286a3..5e7a726 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -185,7 +185,9 @@ def walk_references(obj):
     elif isinstance(obj, dict):
         property_values = obj.values()
     elif hasattr(obj, 'property_data'):
-        property_values = obj.property_data.values()
+        # in the order of the definitions, not the order they were set in
+        data = obj.property_data
+        property_values = [data[pdef.name] for pdef in obj.propertydefs if pdef.name in data]
     else:
         property_values = []
 
-- 
2.43.0


From 8c504b430bbb5f0fad46fe95d538b1ac9eb38b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 24/36] fix: record sizes of a damaged file do not allocate
 more than the file holds

---
 src/avb/file.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index be3024f..eb49fe8 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -26,6 +26,19 @@ try:
 except:
     READERS = {}
 
+def read_exactly(f, size):
+    """
+    Read size bytes or fail. The size can come from a damaged file, so it is
+    read in pieces instead of allocating memory for all of it.
+    """
+    data = bytearray()
+    while len(data) < size:
+        piece = f.read(min(size - len(data), 1 << 20))
+        if not piece:
+            raise ValueError("unexpected end of file")
+        data.extend(piece)
+    return data
+
 class AVBChunk(object):
     __slots__ = ('root', 'class_id', 'pos', 'size')
     def __init__(self, root, class_id, pos, size):
@@ -36,7 +49,7 @@ class AVBChunk(object):
 
     def read(self):
         self.root.f.seek(self.pos)
-        return self.root.f.read(self.size)
+        return bytes(read_exactly(self.root.f, self.size))
 
     def hex(self):
         ctx = self.root.ictx
@@ -293,9 +306,7 @@ class AVBFile(object):
         else:
             class_id, size = struct.unpack(b">4sI", f.read(8))
 
-        data = bytearray(f.read(size))
-        if len(data) != size:
-            raise ValueError("object %d is cut off" % index)
+        data = read_exactly(f, size)
 
         obj_class = utils.AVBClaseID_dict.get(class_id, None)
         if obj_class:
-- 
2.43.0


From 73bce879da21e4cdb2254a4616487068756b514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 25/36] fix: a short read while opening a file is not ignored

---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index eb49fe8..b832233 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -183,7 +183,7 @@ class AVBFile(object):
         self.last_save = ctx.read_datetime(f)
 
         # skip 4 bytes
-        f.read(4)
+        read_exactly(f, 4)
 
         if ctx.read_fourcc(f) != b'ATob':
             raise ValueError("bad document header")
@@ -193,7 +193,7 @@ class AVBFile(object):
         self.creator_version = ctx.read_string(f)
 
         # Reserved data
-        f.read(16)
+        read_exactly(f, 16)
 
         self.root_chunk = AVBChunk(self, b'OBJD', pos, f.tell() - pos)
 
@@ -201,7 +201,7 @@ class AVBFile(object):
 
         for i in range(num_objects):
             self.object_positions.append(f.tell())
-            class_id = f.read(4)
+            class_id = read_exactly(f, 4)
             size = ctx.read_u32(f)
 
             f.seek(size, os.SEEK_CUR)
-- 
2.43.0


From 158a1bdf255b0ab777b7f37f1525f3637604d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 26/36] fix: a string that is cut off is not read as a shorter
 one

---
 src/avb/ioctx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa8388a..52828e5 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -160,6 +160,8 @@ class AVBIOContext(object):
             return u""
 
         s = f.read(size)
+        if len(s) != size:
+            raise ValueError("string is cut off")
         s = s.strip(b'\x00')
         return s.decode(encoding)
 
-- 
2.43.0


From 4c3d77a8ce89b6e84a5ec4780ae90f8a05cead3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 27/36] fix: extending a reference list by itself ends, and by
 a failing iterable is not lost

---
 src/avb/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 5e7a726..70082ca 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -102,8 +102,14 @@ class AVBRefList(list):
         return obj
 
     def extend(self, x):
-        super(AVBRefList, self).extend(x)
-        self.mark_modified()
+        if x is self:
+            # would be iterated while it grows
+            x = list(x)
+        try:
+            super(AVBRefList, self).extend(x)
+        finally:
+            # x can fail half way
+            self.mark_modified()
 
     def append(self, x):
         super(AVBRefList, self).append(x)
-- 
2.43.0


From 01795d5c1b62dae7301e0b4f8087e030e58acbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 28/36] fix: AudioSuite effects with plug-ins can be copied

---
 src/avb/trackgroups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 3975633..3e2408f 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -415,7 +415,7 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
+    def __init__(self, root=None):
         super(ASPIPlugin, self).__init__(root)
         self.chunks = []
 
-- 
2.43.0


From d65a1ad5b24ed33f45fb145cf946decbabd5f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 29/36] fix: a factory call makes the class it was looked up
 for

---
 src/avb/file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index b832233..ed70501 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -13,6 +13,7 @@ import os
 import binascii
 import traceback
 import array
+from functools import partial
 from weakref import WeakValueDictionary
 import struct
 
@@ -71,11 +72,10 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        # the arguments of the call can use the factory too
+        return partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -97,9 +97,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 571fcd3deecdc0bca74a1d2cd62168649398398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:41 +0000
Subject: [PATCH 30/36] fix: the source track of a clip could not be looked up
 when a track of its source mob has no number or no component

---
 src/avb/components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 631bbcb..41c6dfb 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -322,7 +322,11 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                # a track may have neither a number nor a component
+                component = track.get('component', None)
+                if component is None or track.get('index', None) != self.track_id:
+                    continue
+                if self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
-- 
2.43.0


From 23a1a45c3877e6b9b086b98005a033b54398e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 31/36] fix: a component that starts exactly at the position is
 the nearest one, not the one before

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 41c6dfb..e804274 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From 4fe27b898e69d8ab6ab6a0a30fdec6432f8a0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 32/36] fix: integrating over a single time, or up to before
 the first keyframe, raised UnboundLocalError or TypeError

---
 src/avb/components.py    | 2 +-
 src/avb/interpolation.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index e804274..df4ae8c 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -804,7 +804,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..c200a9a 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = start - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-- 
2.43.0


From 2922ca51b1a6d30462a7fd147d600b582336bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 33/36] fix: the value of a Bezier curve near a keyframe could
 end in an AssertionError

---
 src/avb/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index c200a9a..8c04bc1 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -177,8 +177,8 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
     if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+        # a root right at one of the ends can be off by a bit too much
+        return bezier_interpolate_old(p0, p1, p2, p3, x)
 
     # use the root as t for y
     y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
-- 
2.43.0


From 36cae99ff98fc56d19ae33f8cb4eb2251304a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 34/36] fix: malformed mob id text was taken, or refused only
 after part of the id had changed

---
 src/avb/mobid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avb/mobid.py b/src/avb/mobid.py
index c7d0ec2..6ae69fe 100644
--- a/src/avb/mobid.py
+++ b/src/avb/mobid.py
@@ -415,7 +415,9 @@ class MobID(object):
         s = str(value).lower()
         for item in ("urn:smpte:umid:", ".", '-', '0x'):
             s = s.replace(item, '')
-        assert len(s) == 64
+        # refuse malformed text as a whole, before anything is changed
+        if len(s) != 64 or s.strip('0123456789abcdef'):
+            raise ValueError("bad mob id: %r" % value)
 
         SMPTELabel = [0 for i in range(12)]
         start = 0
-- 
2.43.0


From 550647a92f34deedbad35933b755a85d63f112db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:44 +0000
Subject: [PATCH 35/36] fix: saving walked every path to an object, exponential
 in levels of sharing, and failed on deep nesting

---
 src/avb/core.py | 38 +++++++++++++++++++++++++++++++-------
 src/avb/file.py |  3 ++-
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 70082ca..8d479d4 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -184,7 +184,7 @@ class AVBRefList(list):
         self.extend(other)
         return self
 
-def walk_references(obj):
+def direct_references(obj):
 
     if isinstance(obj, list):
         property_values = obj
@@ -205,15 +205,39 @@ def walk_references(obj):
 
         if isinstance(v, list):
             for item in v:
-                for sub_v in walk_references(item):
-                    yield sub_v
+                yield item
 
         if hasattr(v, 'class_id') and v.class_id:
-            for sub_v in walk_references(v):
-                yield sub_v
+            yield v
+
+def walk_references(obj):
+    """
+    Yields obj and every object it refers to, each once and after the objects
+    it refers to itself.
+    """
+    visited = set()
+    stack = []
+
+    def visit(v):
+        if hasattr(v, 'class_id') and v.class_id:
+            # instance ids are only unique within one file
+            key = (id(v.root), v.instance_id)
+            if key in visited:
+                return False
+            visited.add(key)
+        stack.append((v, direct_references(v)))
+        return True
+
+    visit(obj)
+    while stack:
+        obj, references = stack[-1]
+        if any(visit(v) for v in references):
+            # up next
+            continue
 
-    if hasattr(obj, 'class_id') and obj.class_id:
-        yield obj
+        stack.pop()
+        if hasattr(obj, 'class_id') and obj.class_id:
+            yield obj
 
 
 def copy_value(value, root):
diff --git a/src/avb/file.py b/src/avb/file.py
index ed70501..657a63d 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -385,8 +385,9 @@ class AVBFile(object):
                         continue
 
                     self.next_chunk_id += 1
-                    self.ref_mapping[obj.instance_id] = self.next_chunk_id
+                    # an object can not refer to itself, so only after it is written
                     self.write_object(f, obj)
+                    self.ref_mapping[obj.instance_id] = self.next_chunk_id
 
                 pos = f.tell()
                 f.seek(count_pos)
-- 
2.43.0


From 16ee7befe1e5393d53c418ef14db656cd2ab7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:11 +0000
Subject: [PATCH 36/36] fix: saving to a file descriptor raised TypeError since
 saves replace their destination

---
 src/avb/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/utils.py b/src/avb/utils.py
index b41ef85..af1be44 100644
--- a/src/avb/utils.py
+++ b/src/avb/utils.py
@@ -102,8 +102,8 @@ def open_replacing(path):
     Open path for writing. The file takes the place of an existing one when the
     block is done, if anything fails before that the existing one is untouched.
     """
-    if os.path.exists(path) and not os.path.isfile(path):
-        # pipes and devices can only be written in place
+    if isinstance(path, int) or os.path.exists(path) and not os.path.isfile(path):
+        # pipes, devices and file descriptors can only be written in place
         with io.open(path, 'wb') as f:
             yield f
         return
-- 
2.43.0

