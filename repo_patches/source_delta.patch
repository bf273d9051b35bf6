From ca2ca87d4f453473ead3b9fa901f6b07bbe742a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 01/55] fix: read records with an empty payload

---
 src/hwp5/recordstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..1a47ce8 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -78,7 +78,8 @@ def read_record(f, seqno):
     if header is None:
         return
     tagid, level, size = header
-    payload = dataio.readn(f, size)
+    # a record may have an empty payload: there is nothing to read then
+    payload = dataio.readn(f, size) if size > 0 else b''
     return Record(tagid, level, payload, size, seqno)
 
 
-- 
2.43.0


From 9801b366c09122c904b57357a7a8576317b8fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 02/55] fix: parse list headers, control data and shape
 components without a parent

---
 src/hwp5/binmodel/tagid56_list_header.py     | 2 +-
 src/hwp5/binmodel/tagid60_shape_component.py | 2 +-
 src/hwp5/binmodel/tagid71_ctrl_data.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/binmodel/tagid56_list_header.py b/src/hwp5/binmodel/tagid56_list_header.py
index 4547a28..2114eb9 100644
--- a/src/hwp5/binmodel/tagid56_list_header.py
+++ b/src/hwp5/binmodel/tagid56_list_header.py
@@ -82,7 +82,7 @@ class ListHeader(with_metaclass(ListHeaderType, RecordModel)):
         if 'parent' in context:
             context, model = context['parent']
             seen_table_body = context.get('seen_table_body', False)
-            return model['type'], seen_table_body
+            return model.get('type'), seen_table_body
     get_extension_key = staticmethod(get_extension_key)
 
 
diff --git a/src/hwp5/binmodel/tagid60_shape_component.py b/src/hwp5/binmodel/tagid60_shape_component.py
index f00e1c8..ae3e226 100644
--- a/src/hwp5/binmodel/tagid60_shape_component.py
+++ b/src/hwp5/binmodel/tagid60_shape_component.py
@@ -76,7 +76,7 @@ def parent_must_be_gso(context, values):
     # it may be a GSO model's attribute, e.g. 'child_chid'
     if 'parent' in context:
         parent_context, parent_model = context['parent']
-        return parent_model['type'] is GShapeObjectControl
+        return parent_model.get('type') is GShapeObjectControl
 
 
 def chid_is_container(context, values):
diff --git a/src/hwp5/binmodel/tagid71_ctrl_data.py b/src/hwp5/binmodel/tagid71_ctrl_data.py
index 14f6f77..965ff5f 100644
--- a/src/hwp5/binmodel/tagid71_ctrl_data.py
+++ b/src/hwp5/binmodel/tagid71_ctrl_data.py
@@ -52,5 +52,5 @@ class ControlData(with_metaclass(ControlDataType, RecordModel)):
         ''' parent model type '''
         parent = context.get('parent')
         if parent:
-            return parent[1]['type']
+            return parent[1].get('type')
     get_extension_key = classmethod(get_extension_key)
-- 
2.43.0


From 82fa64b73f6bf43f57a69da39cdadeb1bdfd72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 03/55] fix: read the access state of a binary data item from
 bits 8 and 9

The flags of HWPTAG_BIN_DATA are a 16-bit word; bits 16 and 17 do not
exist, so the access state was always reported as NEVER.
---
 src/hwp5/binmodel/tagid18_bin_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid18_bin_data.py b/src/hwp5/binmodel/tagid18_bin_data.py
index 5cd94bf..da17ea8 100644
--- a/src/hwp5/binmodel/tagid18_bin_data.py
+++ b/src/hwp5/binmodel/tagid18_bin_data.py
@@ -64,7 +64,7 @@ class BinData(RecordModel):
     Flags = Flags(UINT16,
                   0, 3, StorageType, 'storage',
                   4, 5, CompressionType, 'compression',
-                  16, 17, AccessState, 'access')
+                  8, 9, AccessState, 'access')
 
     def attributes(cls):
         ''' 표 12 바이너리 데이터 '''
-- 
2.43.0


From 4abd1a02ea282c2a0116368acd97d610efbd02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 04/55] fix: expand arrays item by item while decoding

An array whose length field is corrupt was expanded as a whole before the
first item was read; a tab definition record of a few bytes could exhaust
the memory instead of raising a ParseError.
---
 src/hwp5/bintype.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..7d6603c 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -156,6 +156,10 @@ class ERROREVENT(object):
     pass
 
 
+class REPEATEVENT(object):
+    pass
+
+
 def static_to_mutable(events):
     stack = []
     for ev, item in events:
@@ -194,7 +198,13 @@ def resolve_typedefs(typedef_events, context):
     events = deque(events)
     while len(events) > 0:
         ev, item = events.popleft()
-        if isinstance(item['type'], SelectiveType):
+        if ev is REPEATEVENT:
+            if item['count'] > 0:
+                cloned = list(item['clone'](item['subevents']))
+                item['count'] -= 1
+                events.appendleft((ev, item))
+                events.extendleft(reversed(cloned))
+        elif isinstance(item['type'], SelectiveType):
             if ev is STARTEVENT:
                 parent_struct = stack[-1]
                 struct_value = parent_struct['value']
@@ -270,10 +280,12 @@ def resolve_typedefs(typedef_events, context):
                         item = stack.pop()
                     yield ev, item
 
+            # expand the items one by one: the count is read from the stream,
+            # which may hold far less than that
             events.appendleft(endevent)
-            for _ in range(0, count):
-                cloned = list(clone(subevents))
-                events.extendleft(reversed(cloned))
+            events.appendleft((REPEATEVENT, dict(type=None, count=count,
+                                                 clone=clone,
+                                                 subevents=subevents)))
             events.appendleft((ev, item))
         else:
             if ev is STARTEVENT:
-- 
2.43.0


From 34455db3c19231351670468d6a23b915bdf556c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 05/55] fix: report a record cut within a flags field as a
 ParseError

evaluate_bin_values() expected a value even if reading the field failed,
so a KeyError was raised in place of the ParseError.
---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 7d6603c..27b1500 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -297,7 +297,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if ev is not ERROREVENT and 'flags_type' in item:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From 13354bee0b4a9c95da71c9f02f28ad60a1db148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 06/55] fix: read the reserved control characters 0x19..0x1d

They occupy a single code unit like the other characters around them; a
paragraph with one of them raised a ParseError caused by a KeyError.
---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From 1679f910e593a352ad308836420a67d49da1b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 07/55] fix: cut texts at positions in UTF-16 code units

Character shape and line segment positions count code units; texts with
characters outside the BMP were cut at the wrong place.
---
 src/hwp5/xmlmodel.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..d4c02ad 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -100,6 +100,17 @@ def make_ranged_shapes(shapes):
     yield (item[0], 0x7fffffff), item[1]
 
 
+def split_text(text, pos):
+    ''' split a text at a position given in UTF-16 code units '''
+    idx = 0
+    for uch in text:
+        if pos <= 0:
+            break
+        pos -= 2 if ord(uch) > 0xffff else 1
+        idx += 1
+    return text[:idx], text[idx:]
+
+
 def split_and_shape(chunks, ranged_shapes):
     try:
         (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
@@ -125,10 +136,9 @@ def split_and_shape(chunks, ranged_shapes):
             #         vvvv
             #         ..----
             if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
+                left, right = split_text(chunk, shape_end - chunk_start)
+                prev = ((chunk_start, shape_end), left)
+                nexT = ((shape_end, chunk_end), right)
                 (chunk_start, chunk_end), chunk = prev
             else:
                 nexT = None
-- 
2.43.0


From ce860ed14827d0327856436f98bae387c594e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 08/55] fix: keep table rows intact around rows without cells

A row whose cells are all merged into the rows above has no cells of its
own; it was counted as a row of two cells, so the cells of the following
rows were put into the wrong rows.
---
 src/hwp5/xmlmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index d4c02ad..a1f40ae 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -480,7 +480,7 @@ def rstbody_tablebody(event, stack, item, attributes, context):
         for cols in attributes.pop('rowcols'):
             if cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
+            elif cols > 1:
                 rowcols.append(ROW_OPEN)
                 for i in range(0, cols - 2):
                     rowcols.append(0)
-- 
2.43.0


From 9ae3d2aba7725d9e010fad4b2f7ef9696fe2e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 09/55] fix: leave out all characters XML documents can't hold

Only U+0000 was left out; other control characters, unpaired surrogates and
noncharacters made the output not well-formed or impossible to encode.
---
 src/hwp5/xmlformat.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..1b1dcf1 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -243,6 +244,14 @@ def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
         yield textchunk.encode(encoding)
 
 
+# Characters not allowed in XML documents; http://www.w3.org/TR/xml/#NT-Char
+# (surrogates may be parts of a character in Python 2)
+ILLEGAL_XML_CHARS = u'\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff'
+if PY3:
+    ILLEGAL_XML_CHARS += u'\ud800-\udfff'
+ILLEGAL_XML_CHARS = re.compile(u'[' + ILLEGAL_XML_CHARS + u']')
+
+
 def xmlevents_to_textchunks(xmlevents):
     entities = {'\r': '&#13;',
                 '\n': '&#10;',
@@ -256,12 +265,12 @@ def xmlevents_to_textchunks(xmlevents):
                 yield n
                 yield '='
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
+                v = ILLEGAL_XML_CHARS.sub('', v)
                 yield v
             yield '>'
         elif event is Text:
             text = escape(item)
-            text = text.replace('\x00', '')
+            text = ILLEGAL_XML_CHARS.sub('', text)
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From 2456f653f11237f3c5a3837546133e92882f1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 10/55] fix: don't take storages with a truncated FileHeader
 for HWP files

---
 src/hwp5/filestructure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..caa652f 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,7 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
-from .dataio import UINT32, Flags, Struct
+from .dataio import ParseError, UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
 from .storage import ItemWrapper
@@ -108,10 +108,15 @@ def storage_is_hwp5file(stg):
         logger.info('stg has no FileHeader')
         return False
     fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = fileheader.signature
+    except ParseError as e:
+        logger.info('FileHeader is not readable: %s', e)
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
-- 
2.43.0


From 9bec24070b97742b0eb422b5273ce8c92aa90d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 11/55] fix: return no more than asked for from generator
 readers

---
 src/hwp5/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..cf46eb0 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -163,19 +163,17 @@ class GeneratorReader(object):
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        if len(self.buffer) < size:
+            for data in self.gen:
+                self.buffer += data
+                if len(self.buffer) >= size:
+                    break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -199,21 +197,18 @@ class GeneratorTextReader(object):
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        if len(self.buffer) < size:
+            for data in self.gen:
+                self.buffer += data
+                if len(self.buffer) >= size:
+                    break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From c0157a0a270419f2c687e5f427044089b6a8e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 12/55] fix: write empty json arrays with an opening bracket

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index cf46eb0..f6d39da 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From 1f441915f7d2bc7bc7529dec69301e07a426aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:25 +0000
Subject: [PATCH 13/55] fix: read on until enough raw zlib data is decoded

---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..521f1cb 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -127,7 +127,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From 1c0fa258bbb21df1bfb5d8c8c310aff38a020404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 14/55] fix: leave out the zlib header after resetting the raw
 zlib encoder

---
 src/hwp5/zlib_raw_codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 521f1cb..ec8c5a9 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -64,6 +64,7 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
 
     def reset(self):
         self.compressobj = zlib.compressobj()
+        self.initial = True
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From f72a23c48a534f1e1a328559e9508c95beb3398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 15/55] fix: keep getter methods callable after their cached
 property is read

---
 src/hwp5/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index f6d39da..d7b7075 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -47,18 +47,20 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # the plain name would hide `func' if it is a method of obj, too
+        self.key = '<cached %s>' % func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From 7bacda9b00491bc420d12b7299fd395316ca05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:23 +0000
Subject: [PATCH 16/55] fix: read property sets without a dictionary

---
 src/hwp5/msoleprops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..08afa01 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -594,7 +594,9 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                displayName = None
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From d4fea664f987549f0f8165edd7df4dee9b563589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 17/55] fix: read property sets with values of unsupported
 types

---
 src/hwp5/msoleprops.py | 8 ++++++--
 src/hwp5/xmlmodel.py   | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 08afa01..603afef 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -272,8 +272,12 @@ class PropertyReader(object):
         context = {}
         propType = read_type(TypedPropertyValue, context, f)
         propType = TypedPropertyValue.fromDict(propType)
-        vt_type = vt_types[propType.code]
-        propValue = vt_type.read_value(context, f)
+        vt_type = propType.vt_type
+        if vt_type is not None:
+            propValue = vt_type.read_value(context, f)
+        else:
+            logger.warning('unsupported property type: 0x%04x', propType.code)
+            propValue = None
 
         return Property(
             desc=self.propDesc,
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index a1f40ae..1df85d0 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -713,13 +713,15 @@ class PropertySetStreamModelEventsGenerator(object):
         if property.idLabel is not None:
             content['id_label'] = property.idLabel
         if property.type is not None:
-            content['type'] = str(property.type.vt_type.__name__)
+            if property.type.vt_type is not None:
+                content['type'] = str(property.type.vt_type.__name__)
             content['type_code'] = '0x{:04x}'.format(property.type.code)
         if property.id == PID_DICTIONARY.id:
             events = self.getDictionaryEvents(property.value)
         else:
             events = ()
-            content['value'] = property.value
+            if property.value is not None:
+                content['value'] = property.value
         element = Property, content, self.context
         return wrap_modelevents(element, events)
 
-- 
2.43.0


From 1c0a0e8dbe3ddf0b7fe699c96df5e04ab0186e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 18/55] fix: convert file times without rounding them

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 603afef..1bf9f1a 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -97,7 +97,7 @@ class FILETIME(object):
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From 9dde9b54d31a928da23b860a27755995875bd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:31 +0000
Subject: [PATCH 19/55] fix: report the size of a property set as a number

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 1bf9f1a..a879770 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -416,7 +416,7 @@ class PropertySet(object):
 class PropertySetHeader(Struct):
 
     def __init__(self, bytesize, propDescList):
-        self.bytesize = bytesize,
+        self.bytesize = bytesize
         self.propDescList = propDescList
 
     @classmethod
-- 
2.43.0


From 27c4d254988f2766f76a8f8fdfc1a3ad284c681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 20/55] fix: list storages nested in storages of an OLE file

---
 src/hwp5/plat/olefileio.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..8fc8368 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -160,7 +160,13 @@ def olefile_listdir(olefile, path):
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
     path_segments = path.split('/')
+    depth = len(path_segments)
+    yielded = []
     for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+        # streams in nested storages are listed under the names of those
+        if len(stream) > depth and stream[:depth] == path_segments:
+            item = stream[depth]
+            if item in yielded:
+                continue
+            yielded.append(item)
+            yield item
-- 
2.43.0


From beb152047376bcdf708aa1c75b2c7d188289661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 21/55] fix: list children and read to the end in the gsf
 backend

---
 src/hwp5/plat/gir_gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..524cc6d 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
@@ -117,7 +117,7 @@ class OleStream:
     def read(self, size=None):
         pos = self.gsfole.tell()
         totalsize = self.gsfole.size
-        if size is not None:
+        if size is not None and size >= 0:
             if pos + size > totalsize:
                 size = totalsize - pos
         else:
-- 
2.43.0


From 0084ba40324a67d228035d6ce4af1b2bb24efd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 22/55] fix: unpack storages with a control character in their
 names

---
 src/hwp5/storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..06c1150 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -128,7 +128,8 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        filename = name.replace('\x05', '_05')
+        outpath = os.path.join(outbase, filename)
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +138,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From e49f01653ea943f4e823b6d907c750907ef78038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 23/55] fix: unpack nothing outside of the output directory

---
 src/hwp5/storage/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06c1150..6e3dd37 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -20,10 +20,13 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
 import io
+import logging
 import os.path
 import sys
 
 
+logger = logging.getLogger(__name__)
+
 PY3 = sys.version_info.major == 3
 if PY3:
     basestring = str
@@ -121,6 +124,12 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def is_filename(name):
+    if name in ('', os.curdir, os.pardir) or '\0' in name:
+        return False
+    return os.path.basename(name) == os.path.splitdrive(name)[1] == name
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -129,6 +138,10 @@ def unpack(stg, outbase):
     '''
     for name in stg:
         filename = name.replace('\x05', '_05')
+        if not is_filename(filename):
+            # would be written somewhere else than into outbase
+            logger.warning('%r: not unpacked; invalid as a filename', name)
+            continue
         outpath = os.path.join(outbase, filename)
         item = stg[name]
         if is_storage(item):
-- 
2.43.0


From 090efba7788b71a946f28d4cca9f885949aea5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:31 +0000
Subject: [PATCH 24/55] fix: let streams of extra formats be opened more than
 once

---
 src/hwp5/binmodel/__init__.py | 2 +-
 src/hwp5/recordstream.py      | 2 +-
 src/hwp5/xmlmodel.py          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..4c19dd4 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -466,7 +466,7 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+        d['.models'] = lambda: self.models_json().open()
         return d
 
     def parse_model_events(self):
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 1a47ce8..cdbea4d 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -184,7 +184,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n)
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        return {'.records': lambda: self.records_json().open()}
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 1df85d0..9a59157 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -643,7 +643,7 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
@@ -792,7 +792,7 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
-- 
2.43.0


From 1fdafa00fcabadd9f2bf05d83ac4077b4d723d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 25/55] fix: leave records as they are when converting them to
 json

---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index cdbea4d..74deca4 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -115,7 +115,7 @@ def link_records(records):
 
 def record_to_json(record, *args, **kwargs):
     ''' convert a record to json '''
-    record['payload'] = list(dumpbytes(record['payload']))
+    record = dict(record, payload=list(dumpbytes(record['payload'])))
     return json.dumps(record, *args, **kwargs)
 
 
-- 
2.43.0


From 8ce2b621c98510f13f3246907a43b5a629b470c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 26/55] fix: find records of tags without names

---
 src/hwp5/proc/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..8a553d6 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -185,7 +185,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From bb8ec56c9593a08203b5f753c25b7ec760056beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 27/55] fix: find in the file named last on the standard input

---
 src/hwp5/proc/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 8a553d6..afcffcb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -168,7 +168,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\n'), sys.stdin)
 
 
 def conditions_from_args(args):
-- 
2.43.0


From 6b386ef4917d282fed940a8631cd143366dba92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 28/55] fix: read records from the standard input as bytes

---
 src/hwp5/proc/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..4124c3d 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -47,7 +47,11 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        if PY2:
+            stdin_binary = sys.stdin
+        else:
+            stdin_binary = sys.stdin.buffer
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From ecec1bb2ec12a6d7ea7b5dc03a7abfe44bb5797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:13 +0000
Subject: [PATCH 29/55] fix: keep characters beyond ASCII when unescaping texts

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index d7b7075..858f381 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -131,7 +131,7 @@ def unicode_unescape(s):
     :rtype:
         unicode
     '''
-    return s.encode('utf-8').decode('unicode_escape')
+    return s.encode('latin-1', 'backslashreplace').decode('unicode_escape')
 
 
 def transcode(backend_stream, backend_encoding, frontend_encoding,
-- 
2.43.0


From 27ca45d81b422f82a172e730b0ef8d9e3e794635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:35 +0000
Subject: [PATCH 30/55] fix: write flat XML dumps on Python 3

---
 src/hwp5/xmldump_flat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..88dab23 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
-- 
2.43.0


From 7b944ece69f8a6c048cfd11e97a52ff1c2defc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:05 +0000
Subject: [PATCH 31/55] fix: report truncated records instead of reading what
 is left of them

---
 src/hwp5/recordstream.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 74deca4..b9cbb50 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -27,6 +27,8 @@ from . import dataio
 from . import filestructure
 from .dataio import dumpbytes
 from .dataio import Eof
+from .dataio import OutOfData
+from .dataio import ParseError
 from .dataio import UINT32
 from .tagids import HWPTAG_BEGIN
 from .tagids import tagnames
@@ -51,14 +53,14 @@ def decode_record_header(f):
     try:
         # TagID, Level, Size
         rechdr = UINT32.read(f)
-        tagid = rechdr & 0x3ff
-        level = (rechdr >> 10) & 0x3ff
-        size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
     except Eof:
         return None
+    tagid = rechdr & 0x3ff
+    level = (rechdr >> 10) & 0x3ff
+    size = (rechdr >> 20) & 0xfff
+    if size == 0xfff:
+        size = UINT32.read(f)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
@@ -74,12 +76,22 @@ def encode_record_header(rec):
 
 
 def read_record(f, seqno):
-    header = decode_record_header(f)
-    if header is None:
-        return
-    tagid, level, size = header
-    # a record may have an empty payload: there is nothing to read then
-    payload = dataio.readn(f, size) if size > 0 else b''
+    payload = b''
+    try:
+        header = decode_record_header(f)
+        if header is None:
+            return
+        tagid, level, size = header
+        # a record may have an empty payload: there is nothing to read then
+        if size > 0:
+            payload = dataio.readn(f, size)
+        if len(payload) < size:
+            raise OutOfData('%d of %d bytes' % (len(payload), size))
+    except (Eof, OutOfData, struct.error) as e:
+        pe = ParseError('truncated record: %s' % seqno)
+        pe.cause = e
+        pe.offset = len(payload)
+        raise pe
     return Record(tagid, level, payload, size, seqno)
 
 
-- 
2.43.0


From e0b69cb978e642bc2f4809cd398e610cd74e63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 32/55] fix: exit with an error if a document is damaged in
 converters

---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..d7ae124 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -365,6 +365,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From 46ef50a7369708d18471d2f5f5a5f89bf7e71efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 33/55] fix: convert documents with storages among their binary
 data to odt

---
 src/hwp5/hwp5odt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index d7ae124..6810a2b 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -34,6 +34,7 @@ from . import __version__ as version
 from .cli import init_logger
 from .cli import init_with_environ
 from .errors import ImplementationNotAvailable
+from .storage import is_storage
 from .utils import mkstemp_open
 from .utils import hwp5_resources_path
 from .transforms import BaseTransform
@@ -145,10 +146,13 @@ class ODTTransform(BaseTransform, ODFValidate):
         if 'BinData' in hwp5file:
             bindata = hwp5file['BinData']
             for name in bindata:
-                f = bindata[name].open()
+                item = bindata[name]
+                if is_storage(item):
+                    continue
                 path = 'bindata/' + name
                 mimetype = 'application/octet-stream'
-                odtpkg.insert_stream(f, path, mimetype)
+                with closing(item.open()) as f:
+                    odtpkg.insert_stream(f, path, mimetype)
 
     @cached_property
     def transform_xhwp5_to_styles(self):
-- 
2.43.0


From a92e079c201f18310eda942d664b5b0bf44c3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 34/55] fix: put the mimetype first into odt packages

---
 src/hwp5/hwp5odt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 6810a2b..b9abdf6 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -254,6 +254,8 @@ class ODTPackage(object):
         else:
             zipfile = path_or_zipfile
         self.zf = zipfile
+        # comes first; http://docs.oasis-open.org/office/v1.2 part 3, 3.3
+        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
     def insert_path(self, src_path, path, media_type):
         with io.open(src_path, 'rb') as f:
@@ -271,7 +273,6 @@ class ODTPackage(object):
         manifest_xml(manifest, self.files)
         manifest.seek(0)
         self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
-        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
         self.zf.close()
 
-- 
2.43.0


From e76fb327b40ed16bb883a47f685f670935570e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 35/55] fix: let syntaxhighlight accept bytes

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 858f381..7d4c3b3 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -365,7 +365,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'wb+') as f:
             yield f
 
 
-- 
2.43.0


From d3ce035772bad2c43e9f766b2bdabff2306fd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 36/55] fix: exit quietly if the pager is quit before
 everything is written

---
 src/hwp5/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 7d4c3b3..92c33b9 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -308,13 +308,15 @@ def output_thru_subprocess(cmd):
             yield output
         else:
             try:
-                yield p.stdin
+                try:
+                    yield p.stdin
+                finally:
+                    p.stdin.close()
             except IOError as e:
                 import errno
                 if e.errno != errno.EPIPE:
                     raise
             finally:
-                p.stdin.close()
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
-- 
2.43.0


From 74adf4d6b4834ec3c5f07b13cffb76039d386f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 37/55] fix: fail if a stylesheet processor reports errors

---
 src/hwp5/errors.py              |  4 ++++
 src/hwp5/transforms/__init__.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/errors.py b/src/hwp5/errors.py
index 43bb74a..c256688 100644
--- a/src/hwp5/errors.py
+++ b/src/hwp5/errors.py
@@ -35,6 +35,10 @@ class ImplementationNotAvailable(Exception):
     pass
 
 
+class TransformFailed(Exception):
+    pass
+
+
 class ValidationFailed(Exception):
     pass
 
diff --git a/src/hwp5/transforms/__init__.py b/src/hwp5/transforms/__init__.py
index d3b32ef..4f955a9 100644
--- a/src/hwp5/transforms/__init__.py
+++ b/src/hwp5/transforms/__init__.py
@@ -23,6 +23,7 @@ from contextlib import contextmanager
 import logging
 
 from ..errors import ImplementationNotAvailable
+from ..errors import TransformFailed
 from ..plat import get_xslt_compile
 from ..utils import hwp5_resources_path
 from ..utils import mkstemp_open
@@ -52,7 +53,14 @@ class BaseTransform:
 
     def make_xsl_transform(self, resource_path, **params):
         with hwp5_resources_path(resource_path) as xsl_path:
-            return self.xslt_compile(xsl_path, **params)
+            transform = self.xslt_compile(xsl_path, **params)
+
+        def checked_transform(input, output):
+            result = transform(input, output)
+            if result and 'errors' in result:
+                raise TransformFailed(resource_path)
+            return result
+        return checked_transform
 
     @contextmanager
     def transformed_xhwp5_at_temp(self, hwp5file):
-- 
2.43.0


From 0457ab797ea2b2ac4e6e2e9ba8e0a0322894a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 38/55] fix: fail if openssl fails to decrypt

---
 src/hwp5/plat/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..a5e898d 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -178,10 +178,13 @@ def get_aes128ecb_decrypt_openssl():
         try:
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                decrypted = p.stdout.read()
             finally:
                 p.wait()
                 p.stdout.close()
+            if p.returncode != 0:
+                raise CalledProcessError(p.returncode, args[0])
+            return decrypted
         finally:
             os.unlink(name)
 
-- 
2.43.0


From 3d8f1c3f6f76d1056596c4743229b6b52610a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 39/55] fix: heed PYHWP_XSLTPROC in hwp5html and hwp5txt

---
 src/hwp5/hwp5html.py | 3 +++
 src/hwp5/hwp5txt.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..c784cd5 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -32,6 +32,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .transforms import BaseTransform
 from .utils import cached_property
 
@@ -128,6 +129,8 @@ def main():
     args = argparser.parse_args()
     init_logger(args)
 
+    init_with_environ()
+
     hwp5path = args.hwp5file
 
     html_transform = HTMLTransform()
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 3fa0edc..1523fa6 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -28,6 +28,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
 from .utils import make_open_dest_file
@@ -71,6 +72,8 @@ def main():
     args = argparser.parse_args()
     init_logger(args)
 
+    init_with_environ()
+
     hwp5path = args.hwp5file
 
     text_transform = TextTransform()
-- 
2.43.0


From 41a83d987c491945c1627d18c52ee765db2037a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:12 +0000
Subject: [PATCH 40/55] fix: remove the temporary file if it cannot be written
 for openssl

---
 src/hwp5/plat/__init__.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a5e898d..7156ffc 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -158,24 +158,24 @@ def get_aes128ecb_decrypt_openssl():
 
     def decrypt(key, ciphertext):
         fd, name = tempfile.mkstemp()
-        fp = os.fdopen(fd, 'wb')
-        try:
-            fp.write(ciphertext)
-        finally:
-            fp.close()
-
-        args = [
-            'openssl',
-            'enc',
-            '-d',
-            '-in',
-            name,
-            '-aes-128-ecb',
-            '-K',
-            b2a_hex(key),
-            '-nopad',
-        ]
         try:
+            fp = os.fdopen(fd, 'wb')
+            try:
+                fp.write(ciphertext)
+            finally:
+                fp.close()
+
+            args = [
+                'openssl',
+                'enc',
+                '-d',
+                '-in',
+                name,
+                '-aes-128-ecb',
+                '-K',
+                b2a_hex(key),
+                '-nopad',
+            ]
             p = Popen(args, stdout=subprocess.PIPE)
             try:
                 decrypted = p.stdout.read()
-- 
2.43.0


From dadb9408d3f48718614a65162912586473aee736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:03 +0000
Subject: [PATCH 41/55] fix: provide xslt_compile with UNO

---
 src/hwp5/plat/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index 7156ffc..41348df 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -23,11 +23,14 @@ from binascii import b2a_hex
 from functools import partial
 from subprocess import CalledProcessError
 from subprocess import Popen
+import io
 import logging
 import os
+import shutil
 import subprocess
 import tempfile
 
+from ..utils import mkstemp_open
 from . import _lxml
 from . import _uno
 from . import gir_gsf
@@ -66,8 +69,18 @@ def get_xslt_compile():
                 return xslt_compile
             xslt = getattr(module, 'xslt', None)
             if xslt:
-                def xslt_compile(xsl_path):
-                    return partial(xslt, xsl_path)
+                return partial(xslt_compile_with, xslt)
+
+
+def xslt_compile_with(xslt, xsl_path):
+    ''' xslt_compile() for modules which have xslt() only '''
+    def transform_into_stream(input, output):
+        with mkstemp_open() as (path, f):
+            result = xslt(xsl_path, input, path)
+            with io.open(path, 'rb') as transformed:
+                shutil.copyfileobj(transformed, output)
+            return result
+    return transform_into_stream
 
 
 def get_relaxng():
-- 
2.43.0


From 4a8821e49fac97b0bb6707eb399c1b21bce53338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 42/55] fix: draw long dashed borders in html

---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index c8943ad..e256f2b 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -441,7 +441,7 @@
             <xsl:when test="@stroke-type = 'dotted'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
-            <xsl:when test="@stroke-type = 'long-dash'">dahsed</xsl:when>
+            <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'double'">double</xsl:when>
             <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
-- 
2.43.0


From 8532291e04f015ca79783a90bc368227c66aa22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 43/55] fix: put texts of fields into html

---
 src/hwp5/xsl/hwp5html.xsl | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 1aa1344..3621a04 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -126,19 +126,22 @@
           </xsl:otherwise>
         </xsl:choose>
       </xsl:attribute>
-      <xsl:for-each select="LineSeg">
-        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']" />
-      </xsl:for-each>
+      <xsl:apply-templates select="LineSeg" />
     </xsl:element>
     <xsl:apply-templates select="LineSeg/TableControl[@inline='0']" />
     <xsl:apply-templates select="LineSeg/GShapeObjectControl[@inline='0']" />
   </xsl:template>
 
+  <!-- lines, and fields (their chids start with '%') in them -->
+  <xsl:template match="LineSeg|*[starts-with(@chid, '%')]">
+    <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(@chid, '%')]" />
+  </xsl:template>
+
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
-  <xsl:template match="Paragraph/LineSeg/Text">
+  <xsl:template match="Paragraph/LineSeg//Text">
     <xsl:element name="span">
-      <xsl:variable name="styleid" select="../../@style-id"/>
+      <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
       <xsl:variable name="stylename" select="$style/@name" />
       <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
-- 
2.43.0


From 2cf372f8dae0ec7731b04c8c68dfd185acf3a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 44/55] fix: take western fonts from western font faces in odt

---
 src/hwp5/xsl/odt/common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e4fe0c..ded3b5c 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -541,7 +541,7 @@
   </xsl:template>
 
   <xsl:template mode="style:font-name" match="FontFace">
-    <xsl:variable name="facename-en-id" select="@en + 1"/>
+    <xsl:variable name="facename-en-id" select="//IdMappings/@ko-fonts + @en + 1"/>
     <xsl:apply-templates mode="style:font-name" select="//FaceName[$facename-en-id]" />
   </xsl:template>
 
-- 
2.43.0


From 13552588ed2678d4ab352bc05ec8ca208610bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 45/55] fix: name styles of texts after controls in odt as they
 are defined

---
 src/hwp5/xsl/odt/common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index ded3b5c..6f61a92 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -906,7 +906,7 @@
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
     <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="position()"/>
+    <xsl:variable name="text-pos" select="count(preceding-sibling::Text) + 1"/>
     <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
-- 
2.43.0


From ce10c81128e1432522a083ad17812d651bf7bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 46/55] fix: put texts of fields into odt

---
 src/hwp5/xsl/odt/common.xsl | 49 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 6f61a92..05f5132 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -720,22 +720,27 @@
 
     <xsl:variable name="paragraph-id" select="@paragraph-id + 1"/>
     <xsl:for-each select="LineSeg">
-      <xsl:variable name="lineseg-pos" select="position()" />
-      <xsl:for-each select="Text">
-        <xsl:variable name="text-pos" select="position()" />
-        <xsl:variable name="style-name">
-          <xsl:text>p</xsl:text>
-          <xsl:value-of select="$paragraph-id" />
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$lineseg-pos"/>
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$text-pos"/>
-        </xsl:variable>
-        <xsl:apply-templates mode="style:style" select=".">
-          <xsl:with-param name="style-name" select="$style-name" />
-          <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
-        </xsl:apply-templates>
-      </xsl:for-each>
+      <xsl:apply-templates mode="style-style-for-texts" select=".">
+        <xsl:with-param name="prefix" select="concat('p', $paragraph-id, '-', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
+      </xsl:apply-templates>
+    </xsl:for-each>
+  </xsl:template>
+
+  <xsl:template mode="style-style-for-texts" match="*">
+    <xsl:param name="prefix" />
+    <xsl:param name="style-charshape-id" />
+    <xsl:for-each select="Text">
+      <xsl:apply-templates mode="style:style" select=".">
+        <xsl:with-param name="style-name" select="concat($prefix, '-', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+      </xsl:apply-templates>
+    </xsl:for-each>
+    <xsl:for-each select="*[starts-with(@chid, '%')]">
+      <xsl:apply-templates mode="style-style-for-texts" select=".">
+        <xsl:with-param name="prefix" select="concat($prefix, '-', count(preceding-sibling::*) + 1)" />
+        <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+      </xsl:apply-templates>
     </xsl:for-each>
   </xsl:template>
 
@@ -897,12 +902,22 @@
 
   <xsl:template match="LineSeg">
     <xsl:param name="paragraph" />
-    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar">
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(@chid, '%')]">
       <xsl:with-param name="paragraph" select="$paragraph"/>
       <xsl:with-param name="lineseg-pos" select="position()"/>
     </xsl:apply-templates>
   </xsl:template>
 
+  <!-- fields: their chids start with '%' -->
+  <xsl:template match="*[starts-with(@chid, '%')]">
+    <xsl:param name="paragraph" />
+    <xsl:param name="lineseg-pos"/>
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(@chid, '%')]">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="lineseg-pos" select="concat($lineseg-pos, '-', count(preceding-sibling::*) + 1)"/>
+    </xsl:apply-templates>
+  </xsl:template>
+
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
     <xsl:param name="lineseg-pos"/>
-- 
2.43.0


From 81b40d3bf7362e272709edb5c47db9adb1ab58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 47/55] fix: start every section of an odt with its page layout

---
 src/hwp5/xsl/odt/common.xsl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 05f5132..35b3e5d 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -767,7 +767,7 @@
     <xsl:variable name="style-parashape-id" select="$style/@parashape-id + 1"/>
     <xsl:variable name="parashape-id" select="@parashape-id + 1"/>
     <xsl:variable name="parashape" select="//ParaShape[$parashape-id]"/>
-    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1'">
+    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1' or @new-section = '1'">
       <xsl:element name="style:style">
         <xsl:attribute name="style:family">paragraph</xsl:attribute>
         <xsl:attribute name="style:class">text</xsl:attribute>
@@ -884,7 +884,7 @@
         <xsl:variable name="parashapes" select="/HwpDoc/DocInfo/IdMappings/ParaShape" />
         <xsl:variable name="parashape" select="$parashapes[number($parashape-id)]"/>
         <xsl:choose>
-          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1'">
+          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1' or @new-section='1'">
             <xsl:attribute name="text:style-name">Paragraph-<xsl:value-of select="@paragraph-id + 1"/></xsl:attribute>
           </xsl:when>
           <xsl:otherwise>
-- 
2.43.0


From 211a28cfb44e8b941f7623a0fa22916bf98ca492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 48/55] fix: use only border styles known to odt

---
 src/hwp5/xsl/odt/common.xsl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 35b3e5d..32fca3c 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1135,7 +1135,18 @@
   </xsl:template>
 
   <xsl:template mode="fo-border-style-value" match="Border">
-    <xsl:value-of select="@stroke-type" />
+    <xsl:choose>
+      <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
+      <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'double-3'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'triple'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'wave'">solid</xsl:when>
+      <xsl:when test="@stroke-type = 'double-wave'">double</xsl:when>
+      <xsl:otherwise><xsl:value-of select="@stroke-type" /></xsl:otherwise>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:style" match="TableControl">
-- 
2.43.0


From b06a2bad5cb070e3dd04e569601567b965eca59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 49/55] fix: put bullets only on bulleted paragraphs in html

---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index e256f2b..fc2431d 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -204,7 +204,7 @@
     <xsl:template match="Paragraph|Style" mode="add-class-bullet">
         <xsl:variable name="parashape_pos" select="number(@parashape-id) + 1" />
         <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
-        <xsl:variable name="bullet_id" select="$parashape/@numbering-bullet-id" />
+        <xsl:variable name="bullet_id" select="$parashape[@head-shape = 'bullet']/@numbering-bullet-id" />
         <xsl:if test="$bullet_id &gt; 0">
             <xsl:text> </xsl:text>
             <xsl:text>Bullet-</xsl:text>
-- 
2.43.0


From 23ed9eab8da8c75a43228bbb873872523cd3bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:24 +0000
Subject: [PATCH 50/55] fix: leave out the generic family of fonts without
 Panose in odt

---
 src/hwp5/xsl/odt/common.xsl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 32fca3c..7ca0a51 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -198,12 +198,14 @@
       <!-- Panose1/@serif-style -->
       <!-- 2..10 : serif(roman) -->
       <!-- 11~15 : sans-serif(swiss) -->
-      <xsl:attribute name="style:font-family-generic">
-        <xsl:choose>
-          <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
-          <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
-        </xsl:choose>
-      </xsl:attribute>
+      <xsl:if test="Panose1">
+        <xsl:attribute name="style:font-family-generic">
+          <xsl:choose>
+            <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
+            <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
+          </xsl:choose>
+        </xsl:attribute>
+      </xsl:if>
       <!-- TODO: Panose1/@proportion -->
       <xsl:attribute name="style:font-pitch">variable</xsl:attribute>
     </xsl:element>
-- 
2.43.0


From 1d24854633aae41b25175eaa1f7c5bf17107ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 51/55] fix: center objects between the margins of their
 paragraphs in html

---
 src/hwp5/xsl/hwp5html.xsl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 3621a04..5997bb2 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -502,7 +502,8 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset
+                     - $parashape/@doubled-margin-left div 2 - $parashape/@doubled-margin-right div 2) div 2
                     - @width div 2
                     + @x
                     + $parashape/@doubled-margin-left div 2
-- 
2.43.0


From 5c77521a02f94373c1df4d83e9efeedad1add1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:03 +0000
Subject: [PATCH 52/55] fix: let character shapes turn off those of styles in
 html

---
 src/hwp5/xsl/hwp5css-common.xsl | 67 +++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index fc2431d..3fbf0ba 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -10,6 +10,27 @@
     <xsl:variable name="facenamebasesy" select="$facenamebaseot + //IdMappings/@other-fonts" />
     <xsl:variable name="facenamebaseus" select="$facenamebasesy + //IdMappings/@symbol-fonts" />
 
+    <!-- what the shapes of texts of styles have: shapes of texts, which
+         replace them, should turn it off -->
+    <xsl:variable name="italic-of-styles">
+        <xsl:for-each select="//Style">
+            <xsl:variable name="charshape_pos" select="@charshape-id + 1" />
+            <xsl:value-of select="//CharShape[$charshape_pos][@italic = 1]/@italic" />
+        </xsl:for-each>
+    </xsl:variable>
+    <xsl:variable name="bold-of-styles">
+        <xsl:for-each select="//Style">
+            <xsl:variable name="charshape_pos" select="@charshape-id + 1" />
+            <xsl:value-of select="//CharShape[$charshape_pos][@bold = 1]/@bold" />
+        </xsl:for-each>
+    </xsl:variable>
+    <xsl:variable name="underline-of-styles">
+        <xsl:for-each select="//Style">
+            <xsl:variable name="charshape_pos" select="@charshape-id + 1" />
+            <xsl:value-of select="//CharShape[$charshape_pos][@underline != 'none']/@underline" />
+        </xsl:for-each>
+    </xsl:variable>
+
     <xsl:template match="IdMappings" mode="css-rule">
         <xsl:text>/* Styles */&#10;</xsl:text>
         <xsl:apply-templates select="Style" mode="css-rule" />
@@ -286,19 +307,35 @@
             <xsl:with-param name="value"><xsl:value-of select="@text-color" /></xsl:with-param>
         </xsl:call-template>
 
-        <xsl:if test="@italic = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-style</xsl:with-param>
-                <xsl:with-param name="value">italic</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@italic = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">italic</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="$italic-of-styles != ''">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
-        <xsl:if test="@bold = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-weight</xsl:with-param>
-                <xsl:with-param name="value">bold</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@bold = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">bold</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="$bold-of-styles != ''">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
         <xsl:apply-templates select="." mode="text-decoration" />
     </xsl:template>
@@ -909,6 +946,12 @@
                 <xsl:apply-templates select="." mode="text-decoration-color" />
                 <xsl:apply-templates select="." mode="text-decoration-style" />
             </xsl:when>
+            <xsl:when test="$underline-of-styles != ''">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">text-decoration</xsl:with-param>
+                    <xsl:with-param name="value">none</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
         </xsl:choose>
     </xsl:template>
 
-- 
2.43.0


From 6e79d48a5c0a2c80a43d3dc1c1568ffd25befc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:03 +0000
Subject: [PATCH 53/55] fix: let line spacing of paragraphs replace that of
 styles in html

---
 src/hwp5/xsl/hwp5css-common.xsl | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index 3fbf0ba..3f2e447 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -144,6 +144,12 @@
                     </xsl:with-param>
                 </xsl:call-template>
             </xsl:when>
+            <xsl:otherwise>
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">min-height</xsl:with-param>
+                    <xsl:with-param name="value">0</xsl:with-param>
+                </xsl:call-template>
+            </xsl:otherwise>
         </xsl:choose>
     </xsl:template>
 
@@ -157,6 +163,12 @@
                     </xsl:with-param>
                 </xsl:call-template>
             </xsl:when>
+            <xsl:otherwise>
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">line-height</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:otherwise>
         </xsl:choose>
     </xsl:template>
 
-- 
2.43.0


From 9ceaf8cfdddf133ec296289bd00bf9797484d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 54/55] fix: let character shapes turn off those of styles in
 odt

---
 src/hwp5/xsl/odt/common.xsl | 81 ++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 7ca0a51..a35cf6d 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -34,6 +34,21 @@
   xmlns:css3t="http://www.w3.org/TR/css3-text/">
   <xsl:output method="xml" encoding="utf-8" indent="yes" />
 
+  <!-- what the shapes of texts of styles have: shapes of texts, which
+       replace them, should turn it off -->
+  <xsl:variable name="italic-of-styles">
+    <xsl:for-each select="//Style">
+      <xsl:variable name="charshape_pos" select="@charshape-id + 1" />
+      <xsl:value-of select="//CharShape[$charshape_pos][@italic = 1]/@italic" />
+    </xsl:for-each>
+  </xsl:variable>
+  <xsl:variable name="bold-of-styles">
+    <xsl:for-each select="//Style">
+      <xsl:variable name="charshape_pos" select="@charshape-id + 1" />
+      <xsl:value-of select="//CharShape[$charshape_pos][@bold = 1]/@bold" />
+    </xsl:for-each>
+  </xsl:variable>
+
   <xsl:template mode="office:document" match="HwpDoc">
     <office:document
       office:version="1.2"
@@ -585,39 +600,69 @@
   </xsl:template>
 
   <xsl:template mode="fo:font-style" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="fo:font-style">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="fo:font-style">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$italic-of-styles != ''">
+        <xsl:attribute name="fo:font-style">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-asian" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$italic-of-styles != ''">
+        <xsl:attribute name="style:font-style-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-complex" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$italic-of-styles != ''">
+        <xsl:attribute name="style:font-style-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="fo:font-weight" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$bold-of-styles != ''">
+        <xsl:attribute name="fo:font-weight">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-asian" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$bold-of-styles != ''">
+        <xsl:attribute name="style:font-weight-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-complex" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$bold-of-styles != ''">
+        <xsl:attribute name="style:font-weight-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:text-xxxline-style-value" match="CharShape">
-- 
2.43.0


From 377f3e0f3d702db315c290425b3c3556b0931fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:46 +0000
Subject: [PATCH 55/55] fix: let names of styles in odt begin as names do

---
 src/hwp5/xsl/odt/common.xsl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index a35cf6d..b7fbbae 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -263,6 +263,10 @@
     <xsl:param name="str" />
     <xsl:variable name="prohibited"> !&quot;#$%&amp;&apos;()*+,/:;&lt;=&gt;?@[\]^`{|}~</xsl:variable>
     <xsl:variable name="replace">______________________________</xsl:variable>
+    <!-- these are not for the first -->
+    <xsl:if test="translate(substring($str, 1, 1), '0123456789-.', '') = ''">
+      <xsl:text>_</xsl:text>
+    </xsl:if>
     <xsl:value-of select="translate($str, $prohibited, $replace)" />
   </xsl:template>
 
-- 
2.43.0

