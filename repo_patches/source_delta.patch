From 2cf9e96b7dc5c030d2d6537a2191cd46f1fb796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 01/46] fix: search the end of streams of unknown size

searchBytes() raised ReadStreamError, or missed an occurrence in the last
chunk, when the search reached the end of a stream whose size was not yet
known (pipe, compressed data): the short read was discarded.
---
 hachoir/stream/input.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..7d7dbe2 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -263,13 +263,12 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            data = self.read(start_address, 8 * size)[1]
+            if self._size and (end_address is None or self._size < end_address):
+                # The read reached the end of a stream of unknown size: data
+                # may be shorter than requested, but it has to be searched
                 end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
-                data = data[:size]
-            start_address += 8 * size
+            start_address += 8 * len(data)
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
             if found >= 0:
-- 
2.43.0


From e8c24aea603ad84b1040e640aa922b73cab37020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 02/46] fix: reads of the file object of a stream

read(-1) returned nothing, a read relative to the end of a stream of
unknown size failed, and reading everything after a seek past the end
never returned.
---
 hachoir/stream/input.py | 54 +++++++++++++----------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 7d7dbe2..83864e2 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -78,51 +78,31 @@ class FileFromInputStream:
             if shift:
                 raise InputStreamError("TODO: handle non-byte-aligned data")
             return data
-        if self._size or size is not None and not self._from_end:
-            # We don't want self.tell() to read anything
-            # and the size must be known if we read until the end.
-            pos = self.tell()
-            if size is None or (self._size is not None and self._size < pos + size):
-                size = self._size - pos
-            if size <= 0:
-                return b''
-            data = read(pos, size)
-            self._offset += len(data)
-            return data
-        elif self._from_end:
-            # TODO: not tested
-            max_size = - self._offset
-            if size is None or max_size < size:
-                size = max_size
-            if size <= 0:
-                return b''
-            data = b'', b''
-            self._offset = max(
-                0, self.stream._current_size // 8 + self._offset)
-            self._from_end = False
-            bs = max(max_size, 1 << 16)
-            while True:
-                d = read(self._offset, bs)
-                data = data[1], d
-                self._offset += len(d)
-                if self._size:
-                    bs = self._size - self._offset
-                    if not bs:
-                        data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
-        else:
-            # TODO: not tested
+        if size is not None and size < 0:
+            size = None
+        # If the position is relative to the end, tell() feeds the stream
+        # until its size is known
+        pos = self.tell()
+        if size is None and self._size is None:
+            # Don't ask for the size first: the stream may be unable to seek
+            # backward
             data = []
             size = 1 << 16
             while True:
                 d = read(self._offset, size)
                 data.append(d)
                 self._offset += len(d)
-                if self._size:
+                if self._size is not None:
                     size = self._size - self._offset
-                    if not size:
+                    if size <= 0:
                         return b''.join(data)
+        if self._size is not None and (size is None or self._size < pos + size):
+            size = self._size - pos
+        if size <= 0:
+            return b''
+        data = read(pos, size)
+        self._offset += len(data)
+        return data
 
 
 class InputStream(Logger):
-- 
2.43.0


From fc8a80fdbd8860317556297396b8ab6b04f0a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 03/46] fix: bit order of OutputStream.writeBit()

The first seven bits of each byte were written in the order of the other
endian.
---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..057b56c 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -48,9 +48,9 @@ class OutputStream(object):
         else:
             if state:
                 if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
                     self._byte |= (1 << (7 - self._bit_pos))
+                else:
+                    self._byte |= (1 << self._bit_pos)
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From 29348aaf85dcfd341f32446e0a1bda2bd903300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 04/46] fix: write signed integers in two's complement

OutputStream.writeInteger() wrote them with an offset, so that reading
the integer back gave another value.
---
 hachoir/stream/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 057b56c..021b9a3 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -106,8 +106,9 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            # Two's complement
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 86a62528b16d1c70052de5ce5ceac28fa05c4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 05/46] fix: StringOutputStream() and OutputStream.readBytes()

StringOutputStream() refused bytes, and readBytes() ignored the address
and failed with TypeError on write-only files.
---
 hachoir/stream/output.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 021b9a3..a8c9fca 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,9 +1,8 @@
-from io import StringIO
+from io import BytesIO
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
 from hachoir.core import config
-from errno import EBADF
 
 MAX_READ_NBYTES = 2 ** 16
 
@@ -163,22 +162,21 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
-            except IOError as err:
-                if err[0] == EBADF:
-                    raise OutputStreamError(
-                        "Stream doesn't support read() operation")
+            except IOError:
+                raise OutputStreamError(
+                    "Stream doesn't support read() operation")
         finally:
             self._output.seek(oldpos)
 
 
 def StringOutputStream():
     """
-    Create an output stream into a string.
+    Create an output stream into a byte string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From ffee3b3c65c2f64a45110810980ca2df7ec6ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 06/46] fix: endless iteration on a field set truncated
 meanwhile

---
 hachoir/field/generic_field_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..c397adc 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -380,7 +380,9 @@ class GenericFieldSet(BasicFieldSet):
         try:
             done = 0
             while True:
-                if done == len(self._fields):
+                # fields may be deleted while iterating, if the stream is
+                # shorter than expected
+                if done >= len(self._fields):
                     if self._field_generator is None:
                         break
                     self._addField(next(self._field_generator))
-- 
2.43.0


From c29c26e87f5891e7b370b18ae5ec5fe24c9aff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 07/46] fix: length of an array after a failed access to one of
 its items

---
 hachoir/field/fake_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..7979b98 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -65,7 +65,8 @@ class FakeArray:
             try:
                 value = self.fieldset[self._format % index]
             except MissingField:
-                self._known_size = True
+                if index == self._max_index + 1:
+                    self._known_size = True
                 raise
             self._cache[index] = value
             self._max_index = max(index, self._max_index)
-- 
2.43.0


From 63d89192b0adb35f4be9a4eb7130930638c04869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 08/46] fix: null padding at an address which is not aligned on
 a byte

---
 hachoir/field/padding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/padding.py b/hachoir/field/padding.py
index 4c7265c..7168aa1 100644
--- a/hachoir/field/padding.py
+++ b/hachoir/field/padding.py
@@ -76,6 +76,9 @@ class PaddingBytes(Bytes):
             return False
         if self.pattern is None:
             return False
+        if self.absolute_address % 8:
+            # the contents of an unaligned field can't be read
+            return False
 
         if self.MAX_SIZE < self._size // 8:
             self.info("only check first %s of padding" %
-- 
2.43.0


From 2404beb111b574340088750c06fcb9a4cb35a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 09/46] fix: seekable field sets whose parser seeks after the
 end or yields no field

---
 hachoir/field/seekable_field_set.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..daaadc4 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -58,15 +58,20 @@ class RootSeekableFieldSet(GenericFieldSet):
         self._field_generator = None
 
         # If last field is too big, delete it
-        while self._size < self._current_size:
+        while self._size < self._current_size and len(self._fields):
+            field = self._fields.values[-1]
+            if field.address + field.size <= self._size:
+                break
             field = self._deleteField(len(self._fields) - 1)
             message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
+        # The parser may also have seeked after the end
+        self._current_size = min(self._current_size, self._size)
 
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        if blocks:
+            self._size = max(self._size, max(
+                a + b for a, b in blocks) - self.absolute_address)
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
-- 
2.43.0


From a05baa6711f92262c83668ae8cf57e5def6d52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 10/46] fix: write unaltered fields of an editor at any bit
 address

---
 hachoir/editor/field.py    | 5 +----
 hachoir/editor/fieldset.py | 8 ++------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..4353701 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -63,7 +63,4 @@ class FakeField(object):
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
         stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(stream, addr, size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..361900b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -277,12 +277,8 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
             realaddr = 0
-- 
2.43.0


From 763512a9627bed4f2082eb78641ba27f44e6f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 11/46] fix: position of the fields inserted by an editor

---
 hachoir/editor/fieldset.py | 49 +++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 361900b..6285d02 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -102,44 +102,39 @@ class EditableFieldSet(object):
                     raise UniqKeyError(
                         "Field name '%s' already exists" % field.name)
 
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
-
-        # Whould like to insert in inserted fields?
         if key:
+            # Whould like to insert in inserted fields?
             for fields in self._inserted.values():
                 names = [item.name for item in fields]
                 try:
                     pos = names.index(key)
                 except ValueError:
                     continue
-                if 0 <= pos:
-                    if next:
-                        pos += 1
-                    fields.rotate(-pos)
-                    fields.extendleft(reversed(new_fields))
-                    fields.rotate(pos)
-                    return
-
-            # Get next field. Use None if we are at the end.
-            if next:
-                index = self.input[key].index + 1
-                try:
-                    key = self.input[index].name
-                except IndexError:
-                    key = None
-
-            # Check that field names are not in input
+                if next:
+                    pos += 1
+                fields.rotate(-pos)
+                fields.extendleft(reversed(new_fields))
+                fields.rotate(pos)
+                return
+
+            # Check that the field exists
             if key not in self.input:
                 raise MissingField(self, key)
 
         # Insert in original input
-        self._inserted[key] = deque(new_fields)
+        if next and key:
+            # Insert just after the field, so before the fields already
+            # inserted before the next field. Use None if we are at the end.
+            index = self.input[key].index + 1
+            try:
+                key = self.input[index].name
+            except MissingField:
+                key = None
+            fields = self._inserted.setdefault(key, deque())
+            fields.extendleft(reversed(new_fields))
+        else:
+            fields = self._inserted.setdefault(key, deque())
+            fields.extend(new_fields)
 
     def _getDescription(self):
         return self.input.description
-- 
2.43.0


From 00b742b1d5a507acd6b56f8ee74e1e11cfaf7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 12/46] fix: refuse to delete missing fields in an editor

---
 hachoir/editor/fieldset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 6285d02..b4fb793 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -251,14 +251,15 @@ class EditableFieldSet(object):
     def __delitem__(self, name):
         """
         Remove a field from the field set. May raise an MissingField exception
-        if the field has already been deleted.
+        if the field doesn't exist in original field set or if it has already
+        been deleted.
         """
         parts = name.partition('/')
         if parts[2]:
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        if name in self._deleted or name not in self.input:
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
-- 
2.43.0


From 1da0d2e3e1575e619c1f849f2e201d94ea49a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 13/46] fix: iterate on an empty NewFieldSet, reset an editor

---
 hachoir/editor/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index b4fb793..de2d1d0 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
@@ -334,7 +334,7 @@ class NewFieldSet(EditableFieldSet):
         if None in self._inserted:
             return iter(self._inserted[None])
         else:
-            raise StopIteration()
+            return iter(())
 
     def _getName(self):
         return self._name
-- 
2.43.0


From 48ccd730284862e1e28ab9dcb263cde530c8e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 14/46] fix: create new EditableBytes, EditableCharacter and
 EditableTimestampMac32

A new EditableBytes or EditableTimestampMac32 was considered as unaltered,
and so writeInto() looked for an original field. The constructors of
EditableCharacter and EditableTimestampMac32 with a value were unusable.
---
 hachoir/editor/typed_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..94f505f 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -19,6 +19,8 @@ class EditableField(FakeField):
     def __init__(self, parent, name, value=None):
         FakeField.__init__(self, parent, name)
         self._value = value
+        # A field created with a value has to be written
+        self._is_altered = (value is not None)
 
     def _isAltered(self):
         return self._is_altered
@@ -189,7 +191,7 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
@@ -263,7 +265,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
-- 
2.43.0


From 442e1c72429d6860e95084d8a99382ab5a5ecea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 15/46] fix: write EditableCharacter

---
 hachoir/editor/typed_field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 94f505f..3272a80 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -196,21 +196,21 @@ class EditableCharacter(EditableFixedField):
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
             value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 8)
         if args:
-            self._is_altered = True
+            self._setValue(value)
 
     def _setValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if not (0 <= ord(value) <= 255):
+            raise ValueError("Invalid value, the character must fit in a byte")
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(self._size, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-- 
2.43.0


From 36d5ae53d828ec32547aba596602706ebc688353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 16/46] fix: write Pascal strings in an editor

---
 hachoir/editor/typed_field.py | 4 ++--
 hachoir/field/string_field.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 3272a80..65445b3 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -148,6 +148,7 @@ class EditableString(EditableField):
         if len(args) == 2:
             self._charset = kw.get('charset', None)
             self._format = args[0]
+            self._setValue(value)
             if self._format in GenericString.PASCAL_FORMATS:
                 self._prefix_size = GenericString.PASCAL_FORMATS[self._format]
             else:
@@ -183,8 +184,7 @@ class EditableString(EditableField):
             size = GenericString.PASCAL_FORMATS[self._format]
             output.writeInteger(len(self._value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+            output.writeBytes(self._value)
 
 
 class EditableCharacter(EditableFixedField):
diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..aae3f5a 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -211,7 +211,7 @@ class GenericString(Bytes):
     @staticmethod
     def staticSuffixStr(format, charset, endian):
         if format not in GenericString.SUFFIX_FORMAT:
-            return ''
+            return b''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
             suffix_size = GenericString.UTF_CHARSET[charset][0]
-- 
2.43.0


From eb150ea02b20327e42540e3bf0123b8270d5178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 17/46] fix: range of EditableInteger

Values from -256 to 255 were accepted in 8-bit signed fields, 24-bit and
64-bit fields could not be changed, and the value of new fields was not
checked.
---
 hachoir/editor/typed_field.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 65445b3..7befd89 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -214,17 +214,6 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -240,16 +229,17 @@ class EditableInteger(EditableFixedField):
         EditableFixedField.__init__(self, parent, name, value, size)
         if args:
             self._signed = args[0]
-            self._is_altered = True
+            self._setValue(value)
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
-- 
2.43.0


From 9fdeb7b9d4929678b274eee7bb82ceb5a7b8c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 18/46] fix: read the value of EditableFloat

---
 hachoir/editor/fieldset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index de2d1d0..60caaaa 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -308,10 +308,14 @@ class EditableFloat(EditableFieldSet):
         raw = struct.pack(format, self._value)
         output.writeBytes(raw)
 
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+
     def _setValue(self, value):
-        self.parent._is_altered = True
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From 5c713b7977f1ebfa7a7f2173f5ba3f41c216833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 19/46] fix: check the value of a new EditableTimestampMac32

---
 hachoir/editor/typed_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 7befd89..3a63652 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -264,6 +264,8 @@ class EditableTimestampMac32(EditableFixedField):
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 32)
+        if args:
+            self._setValue(value)
 
     def _setValue(self, value):
         if not (self.minval <= value <= self.maxval):
-- 
2.43.0


From bfd1e3b5319b60ad38de2f63f21d2a5c7ebbe597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 20/46] fix: write the altered sub-fields of EditableFloat

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 60caaaa..8ea22b2 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -294,7 +294,7 @@ class EditableFloat(EditableFieldSet):
     _value = None
 
     def _isAltered(self):
-        return (self._value is not None)
+        return (self._value is not None) or EditableFieldSet._isAltered(self)
     is_altered = property(_isAltered)
 
     def writeInto(self, output):
-- 
2.43.0


From b2053e9df1a017b6f51f94785e6addd888db20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 21/46] fix: search the end of UTF-16 and UTF-32 strings on
 whole characters

"a\0\0b\0\0" (UTF-16-LE) was truncated after the first character because
of the nul bytes between the characters.
---
 hachoir/field/string_field.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index aae3f5a..774b364 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -154,13 +154,18 @@ class GenericString(Bytes):
                 suffix = self.suffix_str
 
                 # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
-                if length is None:
-                    raise FieldError("Unable to find end of string %s (format %s)!"
-                                     % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
+                length = 0
+                while True:
+                    found = self._parent.stream.searchBytesLength(
+                        suffix, False, self.absolute_address + length * 8)
+                    if found is None:
+                        raise FieldError("Unable to find end of string %s (format %s)!"
+                                         % (self.path, self._format))
+                    length += found
+                    if length % len(suffix) == 0:
+                        break
+                    # Ignore a suffix which is not aligned on a character
+                    # (UTF-xx charset):
                     #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
                     #   search returns length=5, whereas real lenght is 6
                     length = alignValue(length, len(suffix))
-- 
2.43.0


From eaaa077c8c49307fb0d561125ddcf14d1145d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 22/46] fix: Dict.replace() with a new key which already exists

---
 hachoir/core/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..d8c7fa3 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -120,6 +120,8 @@ class Dict(object):
         {'two': 'deux', 'three': 4}
         """
         index = self._index[oldkey]
+        if oldkey != newkey and newkey in self._index:
+            raise UniqKeyError("Replace error: key '%s' already exists" % newkey)
         self._value_list[index] = new_value
         if oldkey != newkey:
             del self._index[oldkey]
-- 
2.43.0


From 47727776d34d7213396e6a47cb439f64092ca5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:36 +0000
Subject: [PATCH 23/46] fix: read the BOM of a string in its content

The BOM of a Pascal string was read in its length prefix, and the BOM of
a string shorter than a BOM was read in the next field.
---
 hachoir/field/string_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 774b364..d06a2c1 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -195,8 +195,11 @@ class GenericString(Bytes):
             if endian == "BOM":
                 # Read the BOM value
                 nbytes = bomsize // 8
+                if self._content_size < nbytes:
+                    raise FieldError("String %s is too short for a BOM!"
+                                     % self.path)
                 bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
+                    self.absolute_address + self._content_offset * 8, nbytes)
 
                 # Choose right charset using the BOM
                 bom_endian = self.UTF_BOM[bomsize]
-- 
2.43.0


From 0824f2cb961896d0cc02ac682837ccd69236956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:36 +0000
Subject: [PATCH 24/46] fix: end of UTF-16 and UTF-32 lines in the byte order
 of the charset

---
 hachoir/field/string_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index d06a2c1..d32ba35 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -222,8 +222,11 @@ class GenericString(Bytes):
             return b''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, charset_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            # The byte order of the charset may be different than the parser's
+            if charset_endian in suffix:
+                endian = charset_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
-- 
2.43.0


From 181a26e70302f749268efaa4b72f499d5d9b8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:17 +0000
Subject: [PATCH 25/46] fix: concatenation of regexes doesn't modify its left
 operand

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..4ea43f5 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -650,8 +650,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From 215c409ef91c280bb7536ee93482ef52b7dd2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:18 +0000
Subject: [PATCH 26/46] fix: escape special characters in regex character
 ranges

---
 hachoir/regex/regex.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 4ea43f5..39838db 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -71,6 +71,14 @@ def escapeRegex(text):
     return re.sub(r"([][^.+*?{}|()\\$])", r"\\\1", text)
 
 
+def escapeRange(char):
+    r"""
+    Escape a character to use it in a character range:
+    prefix special characters « ^-]\ » by an antislash.
+    """
+    return re.sub(r"([]^\\-])", r"\\\1", char)
+
+
 def _join(func, regex_list):
     if not isinstance(regex_list, (tuple, list)):
         regex_list = list(regex_list)
@@ -448,8 +456,12 @@ class RegexRangeItem:
 
     def __str__(self, **kw):
         cmin = chr(self.cmin)
+        if self.cmin == self.cmax and cmin in "]-":
+            # RegexRange._str() moves them to the start or to the end
+            return cmin
+        cmin = escapeRange(cmin)
         if self.cmin != self.cmax:
-            cmax = chr(self.cmax)
+            cmax = escapeRange(chr(self.cmax))
             if (self.cmin + 1) == self.cmax:
                 return "%s%s" % (cmin, cmax)
             else:
-- 
2.43.0


From fa0b08d2f78db36e38aff145a8ffec7821ead7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:18 +0000
Subject: [PATCH 27/46] fix: don't merge nested regex repetitions when it
 changes the language

---
 hachoir/regex/regex.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 39838db..78d45bd 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -834,8 +834,16 @@ class RegexRepeat(Regex):
         if optimize:
             cls = regex.__class__
             if cls == RegexRepeat:
-                # (a{n,p}){x,y) => a{n*x,p*y}
-                if not (rmin == 0 and rmax == 1):
+                # (a{n,p}){x,y) => a{n*x,p*y} if there is no hole between
+                # a{n*x,p*x} and a{n*(x+1),p*(x+1)}: (a{2})* is not a*
+                if rmin == rmax:
+                    merge = True
+                elif rmin == 0:
+                    merge = (rmax != 1 and regex.min <= 1)
+                else:
+                    merge = (regex.max is None
+                             or regex.min * (rmin + 1) <= regex.max * rmin + 1)
+                if merge:
                     rmin *= regex.min
                     if regex.max and rmax:
                         rmax *= regex.max
-- 
2.43.0


From 244eca35df8474904ec489fb7d9d630130b025a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:18 +0000
Subject: [PATCH 28/46] fix: maximum length of the repetition of an unbounded
 regex

---
 hachoir/regex/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 78d45bd..7367941 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -884,8 +884,9 @@ class RegexRepeat(Regex):
             return None
 
     def maxLength(self):
-        if self.max is not None:
-            return self.regex.maxLength() * self.max
+        length = self.regex.maxLength()
+        if self.max is not None and length is not None:
+            return length * self.max
         else:
             return None
 
-- 
2.43.0


From be852ff382febec98c64615430d618f656894d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:18 +0000
Subject: [PATCH 29/46] fix: optimization of (a?|b)+

---
 hachoir/regex/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 7367941..05598cd 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -793,8 +793,9 @@ def optimizeRepeatOr(rmin, rmax, regex):
         if cls == RegexRepeat:
             if item.min == 0:
                 if rmin in (0, 1):
-                    if rmax is item.max is None:
+                    if rmax is item.max is None or item.max == 1:
                         # (a*|b){x,} => (a|b){x,}
+                        # (a?|b){x,} => (a|b){x,}
                         item = item.regex
                     else:
                         # (a{0,p}|b){x,} => (a{1,p}|b){x,}
-- 
2.43.0


From 8feea1345ea3c8027f4f94aac5d08f4df7f78f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:18 +0000
Subject: [PATCH 30/46] fix: the dot of a regex matches newlines

---
 hachoir/regex/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 05598cd..690c952 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -265,7 +265,8 @@ class Regex:
             "Class %s has no method _eq()" % self.__class__.__name__)
 
     def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+        # RegexDot matches any character, even a newline
+        return re.compile(self.__str__(**kw), re.DOTALL)
 
     def findPrefix(self, regex):
         """
-- 
2.43.0


From 1053d6809864bc79f39ea0de9833c7f84c2dfc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:45 +0000
Subject: [PATCH 31/46] fix: nested and lazy repetitions of regexes

---
 hachoir/regex/parser.py | 12 ++++++++++++
 hachoir/regex/regex.py  | 23 ++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 234c935..3b4ea6c 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -133,10 +133,20 @@ def _parse(text, start=0, until=None):
     index = start
     regex = RegexEmpty()
     last = None
+    repeated = False   # is last a repetition? (not in parenthesis)
     while index < len(text):
         char = text[index]
         if until and char in until:
             break
+        if repeated and char in '{*?+':
+            if char != '?' or last.lazy:
+                raise SyntaxError('Multiple repetition: %s' % text[start:index + 1])
+            # a+? is a lazy a+
+            last = RegexRepeat(last.regex, last.min, last.max,
+                               optimize=False, lazy=True)
+            index += 1
+            continue
+        repeated = False
         if char in REGEX_COMMAND_CHARACTERS:
             if char in CHAR_TO_FUNC:
                 new_regex, index = CHAR_TO_FUNC[char](text, index + 1)
@@ -147,6 +157,7 @@ def _parse(text, start=0, until=None):
                 rmin, rmax, index = parseRepeat(text, index + 1)
                 new_regex = RegexRepeat(last, rmin, rmax)
                 last = None
+                repeated = True
             elif char in CHAR_TO_REPEAT:
                 rmin, rmax = CHAR_TO_REPEAT[char]
                 if last is None:
@@ -154,6 +165,7 @@ def _parse(text, start=0, until=None):
                         'Repetition character (%s) without previous expression' % text[index])
                 new_regex = RegexRepeat(last, rmin, rmax)
                 last = None
+                repeated = True
                 index += 1
             elif char == "\\":
                 index += 1
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 690c952..3b48141 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -831,7 +831,7 @@ class RegexRepeat(Regex):
     <RegexRepeat 'a{1,3}'>
     """
 
-    def __init__(self, regex, rmin, rmax, optimize=True):
+    def __init__(self, regex, rmin, rmax, optimize=True, lazy=False):
         # Optimisations
         if optimize:
             cls = regex.__class__
@@ -859,6 +859,7 @@ class RegexRepeat(Regex):
         self.regex = regex
         self.min = rmin
         self.max = rmax
+        self.lazy = lazy
 
         # Post-conditions
         assert 0 <= rmin
@@ -893,10 +894,20 @@ class RegexRepeat(Regex):
             return None
 
     def _str(self, **kw):
-        text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
-                or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
-            text = "(%s)" % text
+        text = self.regex.__str__(**kw)
+        cls = self.regex.__class__
+        if cls not in (RegexDot, RegexRange, RegexOr) \
+                and not (cls == RegexString and len(self.regex.text) == 1):
+            if kw.get('python', False):
+                text = "(?:%s)" % text
+            else:
+                text = "(%s)" % text
+        text = self._strRepeat(text)
+        if self.lazy:
+            text += "?"
+        return text
+
+    def _strRepeat(self, text):
         if self.min == 0 and self.max == 1:
             return "%s?" % text
         if self.min == self.max:
@@ -915,6 +926,8 @@ class RegexRepeat(Regex):
             return False
         if self.max != other.max:
             return False
+        if self.lazy != other.lazy:
+            return False
         return (self.regex == other.regex)
 
 
-- 
2.43.0


From cfae8bdc2ba9168ad78de95541e500f6eb9998c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:46 +0000
Subject: [PATCH 32/46] fix: syntax errors of truncated regexes

---
 hachoir/regex/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 3b4ea6c..379a749 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -33,10 +33,10 @@ def parseRange(text, start):
     index = start
     char_range = []
     exclude = False
-    if text[index] == '^':
+    if text[index:index + 1] == '^':
         exclude = True
         index += 1
-    if text[index] == ']':
+    if text[index:index + 1] == ']':
         char_range.append(RegexRangeCharacter(']'))
         index += 1
     while index < len(text) and text[index] != ']':
@@ -77,7 +77,7 @@ def parseOr(text, start):
     # (?:...): Skip Python prefix '?:'
     if text[index:index + 2] == '?:':
         index += 2
-    if text[index] == '?':
+    elif text[index:index + 1] == '?':
         raise NotImplementedError("Doesn't support Python extension (?...)")
     regex = None
     while True:
@@ -128,8 +128,6 @@ CHAR_TO_REPEAT = {'*': (0, None), '?': (0, 1), '+': (1, None)}
 
 
 def _parse(text, start=0, until=None):
-    if len(text) == start:
-        return RegexEmpty(), 0
     index = start
     regex = RegexEmpty()
     last = None
@@ -154,6 +152,9 @@ def _parse(text, start=0, until=None):
                 new_regex = CHAR_TO_CLASS[char]()
                 index += 1
             elif char == '{':
+                if last is None:
+                    raise SyntaxError(
+                        'Repetition character (%s) without previous expression' % char)
                 rmin, rmax, index = parseRepeat(text, index + 1)
                 new_regex = RegexRepeat(last, rmin, rmax)
                 last = None
-- 
2.43.0


From de01916ddabddf8a64353d54e0952d893f7fb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:15 +0000
Subject: [PATCH 33/46] fix: escaped bounds of regex character ranges

---
 hachoir/regex/parser.py | 45 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 379a749..dc7f121 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -15,6 +15,20 @@ import re
 REGEX_COMMAND_CHARACTERS = '.^$[](){}|+?*\\'
 
 
+def parseRangeCharacter(text, index):
+    r"""
+    >>> parseRangeCharacter('[a]', 1)
+    ('a', 2)
+    >>> parseRangeCharacter(r'[\]]', 1)
+    (']', 3)
+    """
+    if text[index] == '\\' and index + 1 < len(text):
+        index += 1
+        if text[index].isalnum():
+            raise SyntaxError("Operator '\\%s' is not supported" % text[index])
+    return text[index], index + 1
+
+
 def parseRange(text, start):
     r"""
     >>> parseRange('[a]b', 1)
@@ -36,29 +50,18 @@ def parseRange(text, start):
     if text[index:index + 1] == '^':
         exclude = True
         index += 1
-    if text[index:index + 1] == ']':
-        char_range.append(RegexRangeCharacter(']'))
-        index += 1
-    while index < len(text) and text[index] != ']':
+    first = index
+    while index < len(text) and (text[index] != ']' or index == first):
+        cmin, index = parseRangeCharacter(text, index)
         if index + 1 < len(text) \
-                and text[index] == '\\':
-            char_range.append(RegexRangeCharacter(text[index + 1]))
-            index += 2
-        elif index + 1 < len(text) \
-                and text[index] == '-' and text[index + 1] == ']':
-            break
-        elif index + 3 < len(text) \
-                and text[index + 1] == '-' \
-                and text[index + 2] != ']':
-            char_range.append(RegexRangeItem(
-                ord(text[index]), ord(text[index + 2])))
-            index += 3
+                and text[index] == '-' \
+                and text[index + 1] != ']':
+            cmax, index = parseRangeCharacter(text, index + 1)
+            if cmax < cmin:
+                raise SyntaxError('Invalid range: %s' % text[start - 1:index])
+            char_range.append(RegexRangeItem(ord(cmin), ord(cmax)))
         else:
-            char_range.append(RegexRangeCharacter(text[index]))
-            index += 1
-    if index < len(text) and text[index] == '-':
-        char_range.append(RegexRangeCharacter('-'))
-        index += 1
+            char_range.append(RegexRangeCharacter(cmin))
     if index == len(text) or text[index] != ']':
         raise SyntaxError('Invalid range: %s' % text[start - 1:index])
     return RegexRange(char_range, exclude), index + 1
-- 
2.43.0


From b48a77d53985286b8f04cbf41d1f30c6348eff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:15 +0000
Subject: [PATCH 34/46] fix: pattern matching reports the item which matches
 the whole text

---
 hachoir/regex/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..9d5baf4 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -142,7 +142,8 @@ class PatternMatching:
 
         # Try in regex patterns
         for item in self.regex_patterns:
-            if item.match(data):
+            # The whole data, not only its beginning
+            if item.compiled_regex.fullmatch(data):
                 return item
         raise KeyError("Unable to get pattern item")
 
-- 
2.43.0


From e0c128df1594c5d3de1695ab68dd880214a7d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 35/46] fix: match of negated character ranges

---
 hachoir/regex/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 3b48141..16bf586 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -538,8 +538,12 @@ class RegexRange(Regex):
             branges = other.ranges
         else:
             return None
+        aranges = self.ranges
+        if self.exclude:
+            # [^a] matchs [^ab]
+            aranges, branges = branges, aranges
         for itemb in branges:
-            if not any(itemb in itema for itema in self.ranges):
+            if not any(itemb in itema for itema in aranges):
                 return False
         return True
 
-- 
2.43.0


From 07f74b29292063f30d3e3fb63e57324f1d8673d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 36/46] fix: subfile search without choosing parsers

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From 305112c935a9192e273f42b50fe5967d7b3300bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:17 +0000
Subject: [PATCH 37/46] fix: subfile search finds the magics across two slices

---
 hachoir/subfile/pattern.py | 7 ++++++-
 hachoir/subfile/search.py  | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..b0773ed 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -31,6 +31,11 @@ class HachoirPatternMatching(PatternMatching):
                 self.addRegex(regex.decode('latin1'), (offset, parser))
         self.commit()
 
-    def search(self, data):
+    def search(self, data, end=None):
+        """
+        Search the magics which begin before end (in bytes).
+        """
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
+            if end is not None and end <= start:
+                break
             yield (item.user[1], start * 8 - item.user[0])
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..bd32ece 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,11 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # Read more data to find the magics which begin before the end of the
+        # slice and end after it
+        data_end = min(end + max(self.patterns.max_length - 1, 0) * 8, self.size)
+        data = self.stream.readBytes(start, (data_end - start) // 8)
+        for parser_cls, offset in self.patterns.search(data, (end - start) // 8):
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From bf847f402db8687567ba1631d2a729ed9f09476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:23 +0000
Subject: [PATCH 38/46] fix: signature of git packs, subfile search without
 choosing parsers

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..511c024 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -216,7 +216,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From 2072c32ab57b8a09d0b81453536052b267926b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:29 +0000
Subject: [PATCH 39/46] fix: dates with a negative or invalid time zone

---
 hachoir/metadata/setter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..dab7d51 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -20,8 +20,8 @@ DATETIME_REGEX1 = re.compile("^([0-9]{4})~([01][0-9])~([0-9]{2})"
 DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
-# Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+# Timezone regex: "(...) +0200" (before the normalization of separators)
+TIMEZONE_REGEX = re.compile("^(.*?)[-/.: ]+([+-](?:[01][0-9]|2[0-3]))00$", re.DOTALL)
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -52,8 +52,12 @@ def parseDatetime(value):
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<TimezoneUTC delta=0, name='UTC'>)
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
+    >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 -0500')
+    datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=-1 day, 19:00:00, name='-0500'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    value = value.strip()
+    timezone = TIMEZONE_REGEX.match(value)
+    value = NORMALIZE_REGEX.sub("~", value)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -96,10 +100,9 @@ def parseDatetime(value):
             pass
     current_locale = setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
-        if match:
-            without_timezone = match.group(1)
-            delta = int(match.group(2))
+        if timezone:
+            without_timezone = NORMALIZE_REGEX.sub("~", timezone.group(1))
+            delta = int(timezone.group(2))
             delta = createTimezone(delta)
         else:
             without_timezone = value
-- 
2.43.0


From 1041720f95fdce5ed50c1f10be68a1d1976d4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 40/46] fix: tell that a display of bytes is truncated whatever
 its escapes

---
 hachoir/field/byte_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/byte_field.py b/hachoir/field/byte_field.py
index e0bdb08..ad23b70 100644
--- a/hachoir/field/byte_field.py
+++ b/hachoir/field/byte_field.py
@@ -35,7 +35,7 @@ class RawBytes(Field):
                 length = min(self._size // 8, max_bytes)
                 self._display = self._parent.stream.readBytes(address, length)
             display = makePrintable(self._display, "ASCII")
-        truncated = (8 * len(display) < self._size)
+        truncated = (8 * max_bytes < self._size)
         if human:
             if truncated:
                 display += "(...)"
-- 
2.43.0


From 5941eac545efba654c07e9b8678e4146db1d3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 41/46] fix: GIF metadata: read the transparency of the graphic
 control

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..ae6e13b 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -261,8 +261,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
-- 
2.43.0


From 176dd98ac9465ca3cafeb1f8d873c0b9bfea7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 42/46] fix: PCX metadata: size of an image which doesn't start
 at (0, 0)

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ae6e13b..dcb5f22 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -137,8 +137,8 @@ class PcxMetadata(RootMetadata):
 
     @fault_tolerant
     def extract(self, pcx):
-        self.width = 1 + pcx["xmax"].value
-        self.height = 1 + pcx["ymax"].value
+        self.width = 1 + pcx["xmax"].value - pcx["xmin"].value
+        self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
         self.bits_per_pixel = pcx["bpp"].value
-- 
2.43.0


From 031fd86098c9ddf935cc3bf0bfb09a8a7da8509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 43/46] fix: ICO metadata: size of icons of 256 pixels

---
 hachoir/metadata/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index dcb5f22..41a9d19 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -104,9 +104,9 @@ class IcoMetadata(MultipleMetadata):
         for index, header in enumerate(icon.array("icon_header")):
             image = Metadata(self)
 
-            # Read size and colors from header
-            image.width = header["width"].value
-            image.height = header["height"].value
+            # Read size and colors from header (a size of 0 means 256)
+            image.width = header["width"].value or 256
+            image.height = header["height"].value or 256
             bpp = header["bpp"].value
             nb_colors = header["nb_color"].value
             if nb_colors != 0:
-- 
2.43.0


From 13215c6c177b4b18ac28e982c20048f906bfc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:15 +0000
Subject: [PATCH 44/46] fix: PSD: the height is before the width in the header

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From f2cb42714b6cf9404fc51e1ddebdc4b71619f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:15 +0000
Subject: [PATCH 45/46] fix: BMP: read the header of the version 2

---
 hachoir/metadata/image.py   |  7 ++++---
 hachoir/parser/image/bmp.py | 15 +++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 41a9d19..48eb641 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -40,12 +40,13 @@ class BmpMetadata(RootMetadata):
             if bpp <= 8 and "used_colors" in hdr:
                 self.nb_colors = hdr["used_colors"].value
             self.bits_per_pixel = bpp
-        self.compression = hdr["compression"].display
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        self.width_dpi = hdr["horizontal_dpi"].value
-        self.height_dpi = hdr["vertical_dpi"].value
+        if "compression" in hdr:
+            self.compression = hdr["compression"].display
+            self.width_dpi = hdr["horizontal_dpi"].value
+            self.height_dpi = hdr["vertical_dpi"].value
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..9ef880e 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -13,7 +13,7 @@ from hachoir.field import (FieldSet,
                            PaddingBytes, NullBytes, createPaddingField)
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
-from hachoir.parser.image.common import RGB, PaletteRGBA
+from hachoir.parser.image.common import RGB, PaletteRGB, PaletteRGBA
 from hachoir.core.tools import alignValue
 
 
@@ -82,8 +82,12 @@ class BmpHeader(FieldSet):
     def createFields(self):
         # Version 2 (12 bytes)
         yield UInt32(self, "header_size", "Header size")
-        yield UInt32(self, "width", "Width (pixels)")
-        yield UInt32(self, "height", "Height (pixels)")
+        if self["header_size"].value == 12:
+            yield UInt16(self, "width", "Width (pixels)")
+            yield UInt16(self, "height", "Height (pixels)")
+        else:
+            yield UInt32(self, "width", "Width (pixels)")
+            yield UInt32(self, "height", "Height (pixels)")
         yield UInt16(self, "nb_plan", "Number of plan (=1)")
         # may be zero for PNG/JPEG picture
         yield UInt16(self, "bpp", "Bits per pixel")
@@ -188,7 +192,10 @@ class BmpFile(Parser):
 
         # Color palette (if any)
         if nb_color:
-            yield PaletteRGBA(self, "palette", nb_color)
+            if header["header_size"].value == 12:
+                yield PaletteRGB(self, "palette", nb_color)
+            else:
+                yield PaletteRGBA(self, "palette", nb_color)
 
         # Seek to data start
         field = self.seekByte(self["data_start"].value)
-- 
2.43.0


From 7a8ab7e698c007588cd63570b506a04945539b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:30 +0000
Subject: [PATCH 46/46] fix: only escaped ASCII letters and digits are regex
 operators

---
 hachoir/regex/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index dc7f121..7ab7b9d 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -11,6 +11,7 @@ from hachoir.regex import (RegexString, RegexEmpty, RegexRepeat,
                            RegexDot, RegexWord, RegexStart, RegexEnd,
                            RegexRange, RegexRangeItem, RegexRangeCharacter)
 import re
+import string
 
 REGEX_COMMAND_CHARACTERS = '.^$[](){}|+?*\\'
 
@@ -24,7 +25,7 @@ def parseRangeCharacter(text, index):
     """
     if text[index] == '\\' and index + 1 < len(text):
         index += 1
-        if text[index].isalnum():
+        if text[index] in string.ascii_letters + string.digits:
             raise SyntaxError("Operator '\\%s' is not supported" % text[index])
     return text[index], index + 1
 
-- 
2.43.0

